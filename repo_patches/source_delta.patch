From 9fb44a09f581f9701290fa5201afb55b9091006b Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 01/93] fix: return the comment of an INCAR entry when it is
 asked for

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 4b64ffc..65f4c13 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -365,7 +365,7 @@ class Incar(BaseParser):
         try:
             value = self.entries[tag].get_value()
             if comment:
-                com = self.entries[tag].get_value()
+                com = self.entries[tag].get_comment()
         except KeyError:
             pass
 
-- 
2.43.0


From 07d3cab329f26902e9adaf5702dde8659ab8c4a8 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 02/93] fix: accept a trailing semicolon in INCAR whatever ends
 the line

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 65f4c13..2a0e001 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -162,7 +162,7 @@ class Incar(BaseParser):
                 # Now split on ; as we could have combined entries
                 splitted = splitted[0].split(';')
                 for ntry in splitted:
-                    if ntry == '\n':
+                    if not ntry.strip():
                         # Skip if the user used ; at the end of a line
                         continue
                     # Then split on = and analyze each entry
-- 
2.43.0


From 23aa51fd48590b01d38a1685546221b9f944364a Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 03/93] fix: keep the comment of free text INCAR entries

---
 parsevasp/incar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 2a0e001..ba224bf 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -543,7 +543,8 @@ class IncarItem:
                 # If value is SYSTEM or MAGMOM (can contain asterix), treat it a bit special and
                 # leave its string intact but remove grub
                 clean_value = value.strip()
-                return clean_tag, clean_value, None
+                clean_comment = comment.strip() if comment is not None else None
+                return clean_tag, clean_value, clean_comment
 
             # Values is a string, so we have read an INCAR or the user
             # tries to assign an entry with just a string
-- 
2.43.0


From dd725e1df2116b22490a3fb9e0e40ef85ed7196e Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 04/93] fix: write lists of booleans in INCAR such that VASP
 understands them

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index ba224bf..fb30d1a 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -267,7 +267,7 @@ class Incar(BaseParser):
 
         if isinstance(value, list):
             # List of values (we know all are either string, int or float)
-            string = ' '.join(map(str, value))
+            string = ' '.join(map(self._convert_value_to_string, value))
         else:
             if isinstance(value, bool):
                 if value:
-- 
2.43.0


From 5bcaad8896e9acd9fe111c76ece41ea3d90569ac Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 05/93] fix: find INCAR entries by tag whatever the letter
 case, like modify does

---
 parsevasp/incar.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index fb30d1a..16d7968 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -334,7 +334,7 @@ class Incar(BaseParser):
         """
 
         try:
-            del self.entries[tag]
+            del self.entries[tag.strip().lower()]
         except KeyError:
             pass
 
@@ -363,9 +363,10 @@ class Incar(BaseParser):
         value = None
         com = None
         try:
-            value = self.entries[tag].get_value()
+            entry = self.entries[tag.strip().lower()]
+            value = entry.get_value()
             if comment:
-                com = self.entries[tag].get_comment()
+                com = entry.get_comment()
         except KeyError:
             pass
 
-- 
2.43.0


From e9868c55745e21c6f9d55d7e035ab4efee828676 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 06/93] fix: reject two sources of content also when one of
 them is a dictionary or a handler

---
 parsevasp/incar.py   | 6 ++----
 parsevasp/kpoints.py | 6 ++----
 parsevasp/poscar.py  | 6 ++----
 3 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 16d7968..e320484 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -72,10 +72,8 @@ class Incar(BaseParser):
         self._width = self._prec + 4
 
         # Check that only one argument is supplied
-        # pylint: disable=R0916
-        if (self._incar_string is not None and self._incar_dict is not None) or (
-            self._incar_string is not None and self._file_path is not None
-        ) or (self._incar_dict is not None and self._file_path is not None) and self._file_handler is not None:
+        from_file = self._file_path is not None or self._file_handler is not None
+        if sum([self._incar_string is not None, self._incar_dict is not None, from_file]) > 1:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 26552a6..06d9ffb 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -98,10 +98,8 @@ class Kpoints(BaseParser):
         self._width = self._prec + 4
 
         # Check that only one argument is supplied
-        # pylint: disable=R0916
-        if (self._kpoints_string is not None and self._kpoints_dict is not None) or (
-            self._kpoints_string is not None and self._file_path is not None
-        ) or (self._kpoints_dict is not None and self._file_path is not None and self._file_handler is not None):
+        from_file = self._file_path is not None or self._file_handler is not None
+        if sum([self._kpoints_string is not None, self._kpoints_dict is not None, from_file]) > 1:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
         # Check that at least one is suplpied
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 7e2fec3..1689ae1 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -80,10 +80,8 @@ class Poscar(BaseParser):
         self._conserve_order = conserve_order
 
         # Check that only one argument is supplied
-        # pylint: disable=R0916
-        if (self._poscar_string is not None and self._poscar_dict is not None) or (
-            self._poscar_string is not None and self._file_path is not None
-        ) or (self._poscar_dict is not None and self._file_path is not None and self._file_handler is not None):
+        from_file = self._file_path is not None or self._file_handler is not None
+        if sum([self._poscar_string is not None, self._poscar_dict is not None, from_file]) > 1:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
         # Check that at least one is suplpied
-- 
2.43.0


From 3eea90f69dc0b8e432dbc891570ab59365ab325f Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 07/93] fix: return the POSCAR entry that is asked for

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 1689ae1..acb157f 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -753,7 +753,7 @@ class Poscar(BaseParser):
 
         value = None
         try:
-            value = self.entries[tag].get_value()
+            value = self.entries[tag]
         except KeyError:
             pass
 
-- 
2.43.0


From abe45e91af5a6d6f1b45d5206a45da0dd1a9c183 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 08/93] fix: report a missing key in the POSCAR dictionary as
 documented

---
 parsevasp/poscar.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index acb157f..7f28362 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -143,8 +143,7 @@ class Poscar(BaseParser):
 
         """
 
-        sites = self._poscar_dict['sites']
-        for site in sites:
+        for site in self._poscar_dict.get('sites', []):
             if not isinstance(site, Site):
                 # Entry is not of a Site type, convert it
                 direct = site['direct']
@@ -473,7 +472,7 @@ class Poscar(BaseParser):
             try:
                 unitcell = self.entries['unitcell']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'unitcell'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'unitcell'.")
                 sys.exit(self.ERROR_NO_KEY)
 
         if (not isinstance(unitcell, np.ndarray)) \
@@ -499,7 +498,7 @@ class Poscar(BaseParser):
             try:
                 comment = self.entries['comment']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'comment'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
         if self.entries['comment'] is not None:
@@ -525,7 +524,7 @@ class Poscar(BaseParser):
             try:
                 sites = self.entries['sites']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'sites'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'sites'.")
                 sys.exit(self.ERROR_NO_KEY)
         if not isinstance(sites, list):
             self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'sites' is not a list.")
@@ -546,7 +545,7 @@ class Poscar(BaseParser):
             try:
                 sites = self.entries['sites']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'sites'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'sites'.")
                 sys.exit(self.ERROR_NO_KEY)
             for _site in sites:
                 if not isinstance(_site, Site):
-- 
2.43.0


From ccf6424a898ee042c77df826bab095d362d42a79 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 09/93] fix: keep the sites of a POSCAR dictionary that are
 given as dictionaries

---
 parsevasp/poscar.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 7f28362..05c48ab 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -143,7 +143,12 @@ class Poscar(BaseParser):
 
         """
 
-        for site in self._poscar_dict.get('sites', []):
+        if not isinstance(self._poscar_dict.get('sites'), list):
+            # Reported when validating
+            return
+
+        sites = []
+        for site in self._poscar_dict['sites']:
             if not isinstance(site, Site):
                 # Entry is not of a Site type, convert it
                 direct = site['direct']
@@ -167,6 +172,9 @@ class Poscar(BaseParser):
                         velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
                         site.set_velocities(velocities)
                     site.set_direct(True)
+            sites.append(site)
+        # Do not touch the dictionary that was supplied
+        self._poscar_dict = {**self._poscar_dict, 'sites': sites}
 
     def _from_list(self, poscar):  # pylint: disable=R0915
         """
-- 
2.43.0


From e5e15afb266f45f6635102609a9e8c5a2a37fff4 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 10/93] fix: read direct velocities that follow cartesian
 positions in POSCAR

---
 parsevasp/poscar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 05c48ab..2387009 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -289,9 +289,9 @@ class Poscar(BaseParser):
             first_char = poscar[loopmax_pos][0].lower()
             if first_char in ('d', 'c'):
                 velocities = True
-                if first_char == 'c':
-                    # Make sure we convert velocities to direct
-                    direct = False
+                # Make sure we convert velocities to direct if they are cartesian, and
+                # only then, the positions could be given differently
+                direct = first_char == 'd'
             elif poscar[loopmax_pos].replace(' ', '') == '\n':
                 predictor = True
         # Now check that the next line is in fact a coordinate
-- 
2.43.0


From 275badbbc907a4e750e23f6bb8b209948ba77c37 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 11/93] fix: accept any number of blank lines at the end of
 POSCAR

---
 parsevasp/poscar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 2387009..79eb09f 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -199,6 +199,9 @@ class Poscar(BaseParser):
 
         """
 
+        # Blank lines at the end carry no content
+        while poscar and not poscar[-1].strip():
+            poscar = poscar[:-1]
         comment = poscar[0].replace('#', '').strip()
         vasp5 = True
         # Check for VASP 5 POSCAR
-- 
2.43.0


From 8e1494974aba5b68ee1f04b30125cf4583833caa Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 12/93] fix: skip every species without atoms when reading
 POSCAR

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 79eb09f..a2fa786 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -254,7 +254,7 @@ class Poscar(BaseParser):
         # Loop positions
         for i in range(nions):
             # Fetch specie
-            if index > atoms[specie_slot]:
+            while index > atoms[specie_slot]:
                 specie_slot = specie_slot + 1
                 index = 1
             specie = spec[specie_slot]
-- 
2.43.0


From 20e1ee2c92bfd75c9d010d106f7719a06bab461f Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 13/93] fix: leave the sites supplied to POSCAR unchanged when
 converting them

---
 parsevasp/poscar.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index a2fa786..c416274 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -163,15 +163,12 @@ class Poscar(BaseParser):
                 site = Site(site['specie'], position, site['selective'], velocities, site['predictors'], direct)
             else:
                 if not site.get_direct():
-                    # Cartesian, so convert.
-                    position = site.get_position()
+                    # Cartesian, so convert. The site that was supplied is left alone.
+                    position = self._to_direct(site.get_position(), self._poscar_dict['unitcell'])
                     velocities = site.get_velocities()
-                    position = self._to_direct(position, self._poscar_dict['unitcell'])
-                    site.set_position(position)
                     if velocities is not None:
                         velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
-                        site.set_velocities(velocities)
-                    site.set_direct(True)
+                    site = Site(site.get_specie(), position, site.get_selective(), velocities, site.get_predictors())
             sites.append(site)
         # Do not touch the dictionary that was supplied
         self._poscar_dict = {**self._poscar_dict, 'sites': sites}
-- 
2.43.0


From cde3605dd04b2b5260701196c36da71f18d6b4a2 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 14/93] fix: check the type of a new POSCAR comment whatever
 the old comment

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index c416274..ae08465 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -509,7 +509,7 @@ class Poscar(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
-        if self.entries['comment'] is not None:
+        if comment is not None:
             if not isinstance(comment, str):
                 self._logger.error(
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' is not a string."
-- 
2.43.0


From 130c809f0af93c99a8d85072eb9d31af3a16920f Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 15/93] fix: return the KPOINTS entry that is asked for

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 06d9ffb..d8ff44a 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -797,7 +797,7 @@ class Kpoints(BaseParser):
 
         value = None
         try:
-            value = self.entries[tag].get_value()
+            value = self.entries[tag]
         except KeyError:
             pass
 
-- 
2.43.0


From 6dd43c3bc2e10388408c2ab03179ab9a867875a5 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 16/93] fix: skip every blank line between the segments of a
 line mode KPOINTS

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index d8ff44a..0867067 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -255,7 +255,7 @@ class Kpoints(BaseParser):
                 sys.exit(self.ERROR_KPOINTS_NOT_DIRECT)
             for index in range((len(kpoints) - 4)):
                 true_index = index + 4
-                if kpoints[true_index] != '\n':
+                if kpoints[true_index].strip():
                     entry = kpoints[true_index].split()[0:3]
                     coordinate = np.asarray([float(element) for element in entry])
                     point = Kpoint(coordinate, 1.0)
-- 
2.43.0


From cb6d416e0f91f8f3997d47577472343bc8b7ab55 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 17/93] fix: keep the KPOINTS shift and accept KPOINTS with
 blank or extra lines at the end

---
 parsevasp/kpoints.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 0867067..0d5fa5c 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -167,6 +167,9 @@ class Kpoints(BaseParser):
 
         """
 
+        # Blank lines at the end carry no content
+        while kpoints and not kpoints[-1].strip():
+            kpoints = kpoints[:-1]
         comment = kpoints[0].replace('#', '').strip()
         num_kpoints = int(kpoints[1].split()[0])
         divisions = None
@@ -233,7 +236,7 @@ class Kpoints(BaseParser):
                 else:
                     centering = 'Monkhorst-Pack'
                 divisions = [int(element) for element in kpoints[3].split()]
-                if len(kpoints) == 5:
+                if len(kpoints) > 4:
                     shifts = [float(element) for element in kpoints[4].split()]
             elif third_line_char == 'r':
                 centering = 'Reciprocal'
-- 
2.43.0


From a5222456f3cb6554ee8e5084b8b90a923441ba43 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 18/93] fix: check the type of a new KPOINTS comment whatever
 the old comment

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 0d5fa5c..8e278e3 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -432,7 +432,7 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
-        if self.entries['comment'] is not None:
+        if comment is not None:
             if not isinstance(comment, str):
                 self._logger.error(
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' should be a string."
-- 
2.43.0


From 77e64604a2ddda3b742cf1c9dfa6712105e71c77 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 19/93] fix: allow the generating vectors of KPOINTS to be
 modified

---
 parsevasp/kpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 8e278e3..e20f4be 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -45,7 +45,7 @@ class Kpoints(BaseParser):
         ERROR_DIVISIONS:
         "You have to set either 'divisions' (automatic mode) or the explicit 'points'.",
         ERROR_INVALID_TAG:
-        "Only 'comment', 'points', 'tetra', 'tetra_volume', 'divisions', 'shifts', 'mode' "
+        "Only 'comment', 'points', 'tetra', 'tetra_volume', 'divisions', 'generating_vectors', 'shifts', 'mode' "
         "'num_kpoints' or 'centering' is allowed as input for entry.",
         ERROR_WRONG_OBJECT:
         "At least one of the values in 'points' is not a Kpoint() object.",
@@ -410,7 +410,7 @@ class Kpoints(BaseParser):
 
         if not (('comment' in entry) or ('points' in entry) or ('tetra' in entry) or ('tetra_volume' in entry) or
                 ('divisions' in entry) or ('mode' in entry) or ('num_kpoints' in entry) or ('shifts' in entry) or
-                ('centering') in entry):
+                ('centering') in entry or ('generating_vectors') in entry):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_TAG])
             sys.exit(self.ERROR_INVALID_TAG)
 
-- 
2.43.0


From ef5b31d8b877aa50082a53ca232c91dc73de41f6 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 20/93] fix: keep the number of explicit KPOINTS in step with
 the points

---
 parsevasp/kpoints.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index e20f4be..9a1a911 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -347,6 +347,8 @@ class Kpoints(BaseParser):
                 self._check_num_kpoints(num_kpoints=value)
 
             self.entries[entry] = value
+            if entry == 'points':
+                self._update_num_kpoints()
 
     def delete_point(self, point_number):
         """
@@ -363,6 +365,16 @@ class Kpoints(BaseParser):
         self._check_points()
         self._check_point_number(point_number)
         del self.entries['points'][point_number]
+        self._update_num_kpoints()
+
+    def _update_num_kpoints(self):
+        """
+        Keep the number of points consistent with the points if they are given explicitly.
+
+        """
+
+        if self.entries['mode'] == 'explicit' and self.entries['points'] is not None:
+            self.entries['num_kpoints'] = len(self.entries['points'])
 
     def add_point(self, point_number):
         """
@@ -875,7 +887,7 @@ class Kpoints(BaseParser):
         # Check mode
         mode = entries['mode']
         if mode == 'explicit':
-            file_handler.write(f"{entries['num_kpoints']:6d}\n")
+            file_handler.write(f"{len(entries['points']):6d}\n")
             # Points should already be direct
             file_handler.write('Direct\n')
             for point in entries['points']:
-- 
2.43.0


From 3af6d8eca0a1e66b0e2382e876660c9cc6e41ebd Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 21/93] fix: do not pass KPOINTS points that are not direct off
 as direct

---
 parsevasp/kpoints.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 9a1a911..2de971e 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -316,6 +316,8 @@ class Kpoints(BaseParser):
             if not isinstance(point_number, int):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_NOT_A_NUMBER])
                 sys.exit(self.ERROR_NOT_A_NUMBER)
+            # Check that the point is in direct
+            self._check_direct([value])
             self.entries['points'][point_number] = value
         else:
             if entry == 'points':
@@ -786,6 +788,17 @@ class Kpoints(BaseParser):
         self._check_tetra()
         self._check_tetra_volume()
 
+    def _check_direct(self, points):
+        """
+        Check that all points are in direct coordinates.
+
+        """
+
+        for point in points:
+            if not point.get_direct():
+                self._logger.error(self.ERROR_MESSAGES[self.ERROR_CONVERSION])
+                sys.exit(self.ERROR_CONVERSION)
+
     def _to_direct(self, point):
 
         return point
@@ -886,6 +899,8 @@ class Kpoints(BaseParser):
         file_handler.write(comment + '\n')
         # Check mode
         mode = entries['mode']
+        if mode in ('explicit', 'line'):
+            self._check_direct(entries['points'])
         if mode == 'explicit':
             file_handler.write(f"{len(entries['points']):6d}\n")
             # Points should already be direct
-- 
2.43.0


From 6940ed2618b4fa08f11e1ed33da5214bd5d7719e Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 22/93] fix: do not edit the dictionary supplied to KPOINTS

---
 parsevasp/kpoints.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 2de971e..0910d63 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -118,8 +118,9 @@ class Kpoints(BaseParser):
             # Create dictionary from a string
             self._kpoints_dict = self._from_string()
 
-        # Ctore entries
-        self.entries = self._kpoints_dict
+        # Store entries, without touching what was supplied later on
+        self.entries = {key: list(value) if isinstance(value, list) else value
+                        for key, value in self._kpoints_dict.items()}
 
         # Validate dictionary
         self._validate()
-- 
2.43.0


From 2f8e24eb67564c5ab4ca1a84ee54d50e8f361111 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 23/93] fix: use one name for the non symmetrized elastic
 moduli

---
 parsevasp/outcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index eca8c87..0ce440e 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -44,7 +44,7 @@ class Outcar(BaseParser):
 
         self._data = {
             'elastic_moduli': {
-                'non-symmetrized': None,
+                'non_symmetrized': None,
                 'symmetrized': None,
                 'total': None
             },
-- 
2.43.0


From f3614997c55e258b2978170526eeb068b4e5b76e Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 24/93] fix: report how many primitive cells a supercell is
 made of

---
 parsevasp/outcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 0ce440e..cac1a7c 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -161,7 +161,7 @@ class Outcar(BaseParser):
                     if text:
                         self._data['symmetry']['original_cell_type'][config].append('primitive cell')
                 if 'primitive cells build up your supercell' in line:
-                    text = f'{line.strip().split()} primitive cells'
+                    text = f'{line.strip().split()[0]} primitive cells'
                     self._data['symmetry']['original_cell_type'][config].append(text)
                 if line.strip().startswith('Routine SETGRP: Setting up the symmetry group for a'):
                     self._data['symmetry']['symmetrized_cell_type'][config].append(outcar[index + 1].strip().lower())
-- 
2.43.0


From d55389ad5cfbc3bfb749908e26b82336358bf70e Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 25/93] fix: do not crash on an OUTCAR that ends within a table

---
 parsevasp/outcar.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index cac1a7c..70d6406 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -156,30 +156,32 @@ class Outcar(BaseParser):
             if line.strip().startswith('Analysis of symmetry for dynamics'):
                 config = 'dynamic'
             if config:
-                if line.strip().startswith('Subroutine PRICEL returns'):
+                if line.strip().startswith('Subroutine PRICEL returns') and index + 1 < len(outcar):
                     text = outcar[index + 1].strip().lower()
                     if text:
                         self._data['symmetry']['original_cell_type'][config].append('primitive cell')
                 if 'primitive cells build up your supercell' in line:
                     text = f'{line.strip().split()[0]} primitive cells'
                     self._data['symmetry']['original_cell_type'][config].append(text)
-                if line.strip().startswith('Routine SETGRP: Setting up the symmetry group for a'):
+                if line.strip().startswith(
+                    'Routine SETGRP: Setting up the symmetry group for a'
+                ) and index + 1 < len(outcar):
                     self._data['symmetry']['symmetrized_cell_type'][config].append(outcar[index + 1].strip().lower())
                 if line.strip().startswith('Subroutine GETGRP returns'):
                     self._data['symmetry']['num_space_group_operations'][config].append(int(line.strip().split()[4]))
 
             # then the elastic tensors etc. in kBar
-            if line.strip().startswith('ELASTIC MODULI  (kBar)'):
+            if line.strip().startswith('ELASTIC MODULI  (kBar)') and index + 8 < len(outcar):
                 tensor = []
                 for idx in range(3, 9):
                     tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
                 self._data['elastic_moduli']['non_symmetrized'] = np.asarray(tensor)
-            if line.strip().startswith('SYMMETRIZED ELASTIC MODULI'):
+            if line.strip().startswith('SYMMETRIZED ELASTIC MODULI') and index + 8 < len(outcar):
                 tensor = []
                 for idx in range(3, 9):
                     tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
                 self._data['elastic_moduli']['symmetrized'] = np.asarray(tensor)
-            if line.strip().startswith('TOTAL ELASTIC MODULI'):
+            if line.strip().startswith('TOTAL ELASTIC MODULI') and index + 8 < len(outcar):
                 tensor = []
                 for idx in range(3, 9):
                     tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
@@ -188,7 +190,8 @@ class Outcar(BaseParser):
                 if line.strip().startswith(f'magnetization ({_proj})'):
                     _counter = 0
                     mag_found = False
-                    while not mag_found:
+                    # The table is incomplete if the run was killed
+                    while not mag_found and index + 4 + _counter < len(outcar):
                         if outcar[index + 4 + _counter].strip().split():
                             if not outcar[index + 4 + _counter].strip().startswith('-') and not outcar[
                                 index + 4 + _counter].strip().startswith('tot'):
-- 
2.43.0


From bbaf95a6b2170468082773f2889a888fa2eba869 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 26/93] fix: read the spin resolved density of states from the
 right columns

---
 parsevasp/doscar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 04472c5..3a6dcc2 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -212,7 +212,8 @@ class Doscar(BaseParser):
             if num_spin == 1:
                 dos[name] = np.squeeze(dos_data[:, i + 1:i + 1 + num_spin], axis=1)
             else:
-                dos[name] = dos_data[:, i + 1:i + 1 + num_spin]
+                # The spin components of each quantity are adjacent
+                dos[name] = dos_data[:, 1 + i * num_spin:1 + (i + 1) * num_spin]
 
         # Partial density of states
         pdos_items = []
@@ -237,7 +238,8 @@ class Doscar(BaseParser):
                 if num_spin == 1:  # Only squeeze if there is only one spin component
                     pdos[name] = np.squeeze(pdos_data[:, :, i + 1:i + 1 + num_spin], axis=2)
                 else:
-                    pdos[name] = pdos_data[:, :, i + 1:i + 1 + num_spin]
+                    # The spin components of each orbital are adjacent
+                    pdos[name] = pdos_data[:, :, 1 + i * num_spin:1 + (i + 1) * num_spin]
 
         metadata = {}
         metadata['n_ions'] = num_ions
-- 
2.43.0


From 6af170f506fed805c48f2e5d15b31c1db27cee6e Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 27/93] fix: use the same name for the dx2-y2 orbital in every
 DOSCAR

---
 parsevasp/doscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 3a6dcc2..0fd6669 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -52,7 +52,7 @@ DTYPES_PDOS_NONCOLLINEAR = {
     37:
     np.dtype([('energy', float), ('s', float, (4,)), ('py', float, (4,)), ('px', float, (4,)), ('pz', float, (4,)),
               ('dxy', float, (4,)), ('dyz', float, (4,)), ('dz2', float, (4,)), ('dxz', float, (4,)),
-              ('x2-y2', float, (4,))]),
+              ('dx2-y2', float, (4,))]),
     65:
     np.dtype([('energy', float), ('s', float, (4,)), ('py', float, (4,)), ('px', float, (4,)), ('pz', float, (4,)),
               ('dxy', float, (4,)), ('dyz', float, (4,)), ('dz2', float, (4,)), ('dxz', float, (4,)),
-- 
2.43.0


From 68bfa825a9629ddd42718345f3f6be0adeb21b14 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 28/93] fix: read density of states values with a three digit
 exponent

---
 parsevasp/doscar.py |  2 +-
 parsevasp/utils.py  | 24 ++++++++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 0fd6669..4fdd068 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -194,7 +194,7 @@ class Doscar(BaseParser):
         ndos = int(ndos)
 
         # The rest of the file is density of states data, convert to float
-        data = [utils.line_to_type(line, d_type=float) for line in doscar[6:]]
+        data = [utils.line_to_type(line, d_type=utils.fortran_float) for line in doscar[6:]]
 
         # Get the number of columns for the total dos section to figure out
         # if data is spin decomposed
diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 8d06eb0..6ba1e6f 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -358,6 +358,30 @@ def match_integer_param(inputs, key, string):
         inputs[key.lower()] = int(match.group(1))
 
 
+def fortran_float(string):
+    """
+    Convert a string to a float, also when Fortran left out the exponent letter.
+
+    Fortran writes e.g. 0.1234-102 when there is only room for two digits in the exponent.
+
+    Parameters
+    ----------
+    string : str
+        The string to be converted.
+
+    Returns
+    -------
+    value : float
+        The value.
+
+    """
+
+    try:
+        return float(string)
+    except ValueError:
+        return float(re.sub(r'(\d)([-+]\d{3})$', r'\1E\2', string))
+
+
 def line_to_type(fobject_or_string, d_type=str, no_split=False):
     """
     Grab a line from a file like object or string and convert it to d_type (default: str).
-- 
2.43.0


From 3bc49233071c6a7f3f6558e4172a69d68583f129 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 29/93] fix: accept any blank lines in EIGENVAL

---
 parsevasp/eigenval.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsevasp/eigenval.py b/parsevasp/eigenval.py
index 79cfc4a..49b29cc 100644
--- a/parsevasp/eigenval.py
+++ b/parsevasp/eigenval.py
@@ -103,9 +103,9 @@ class Eigenval(BaseParser):
         kpoints = np.zeros((num_kp, 4))
         eigenvalues = np.zeros((num_spins, num_kp, num_bands))
         # Iterate over blocks, pr. k-point
-        for k, field in enumerate(data):
-            # Remove empty lines
-            kpbs = [x for x in field if x]
+        # Remove empty lines and blocks without content
+        data = [[x for x in field if x] for field in data]
+        for k, kpbs in enumerate(field for field in data if field):
             # First line in the data block is the kpoint coordinates and weight
             kpi = [float(x) for x in kpbs.pop(0)]
             kpoints[k] = kpi
-- 
2.43.0


From 3b73a24c011da0e279c8ee00bff2875c1aa08345 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 30/93] fix: do not report zeros for eigenvalues missing from
 EIGENVAL

---
 parsevasp/eigenval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/eigenval.py b/parsevasp/eigenval.py
index 49b29cc..c346b80 100644
--- a/parsevasp/eigenval.py
+++ b/parsevasp/eigenval.py
@@ -100,8 +100,9 @@ class Eigenval(BaseParser):
         # Datablocks
         data = re.split(utils.empty_line, data)
         data = [[line.split() for line in block.splitlines()] for block in data]
-        kpoints = np.zeros((num_kp, 4))
-        eigenvalues = np.zeros((num_spins, num_kp, num_bands))
+        # What is not in the file, e.g. because it is truncated, should not look like a value
+        kpoints = np.full((num_kp, 4), np.nan)
+        eigenvalues = np.full((num_spins, num_kp, num_bands), np.nan)
         # Iterate over blocks, pr. k-point
         # Remove empty lines and blocks without content
         data = [[x for x in field if x] for field in data]
-- 
2.43.0


From d92491f3b3941d70ef33e1fc6313b9ad14aa561c Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 31/93] fix: accept blanks in the empty line after the CHGCAR
 header

---
 parsevasp/chgcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 636b7ac..d791521 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -62,7 +62,7 @@ class Chgcar(BaseParser):
         """
         content = utils.read_from_file(self._file_path, self._file_handler, lines=False)
         # Extract header
-        temp = content.split('\n\n', 1)
+        temp = utils.empty_line.split(content, maxsplit=1)
         header = temp[0]
         content = temp[1]
         header = header.split('\n')
-- 
2.43.0


From da1a996bf47375214d73eb9ca396f84c4ad552d0 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 32/93] fix: do not flip the sign of the CHGCAR densities of
 left-handed cells

---
 parsevasp/chgcar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index d791521..0eeaa92 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -75,7 +75,8 @@ class Chgcar(BaseParser):
             # Calculate volume for later scaling
         volume = 1.0
         if volume:
-            volume = np.dot(lattice_vectors[0], np.cross(lattice_vectors[1], lattice_vectors[2]))
+            # The triple product is negative for a left-handed cell, the volume is not
+            volume = abs(np.dot(lattice_vectors[0], np.cross(lattice_vectors[1], lattice_vectors[2])))
         # First line of content should now be NGXF, NGYF, NGZF
         temp = content.split('\n', 1)
         ngf_string = temp[0]
-- 
2.43.0


From 88df8ac309105fa7cce8749466c7d02c2d42401f Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 33/93] fix: do not report the charge of fractional POTCARs as
 part of the element

---
 parsevasp/potcar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 2362ea6..c98fdff 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -146,7 +146,8 @@ class Potcar(BaseParser):
         except IndexError:
             self._symbol = self.metadata['TITEL'].strip()
 
-        self._element = self._symbol.split('_')[0]
+        # Symbols can contain more than the element, e.g. W_pv or H1.25
+        self._element = re.match(r'[A-Za-z]*', self._symbol).group(0)
 
     @property
     def symbol(self):
-- 
2.43.0


From 2a74ba1d09c8944c3ee8594d614d3313045a7d03 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 34/93] fix: detect truncation of XML files that are short, end
 with blank lines or come in text mode

---
 parsevasp/vasprun.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index fd31bde..1adbc76 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -3643,24 +3643,22 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        last_line = ''
-        xml_truncated = True
         # We here use seek to get the last kilobyte of the file and check that
         # it is truncated correctly. We can not use fileno as the file handler is not
         # always on a file system.
-        shift = self._file_size - 1024
-        if shift > 0:
-            if self._file_handler is not None:
-                self._file_handler.seek(shift)
-                last_line = self._file_handler.readlines()[-1]
-                # Reset pointer
-                self._file_handler.seek(0)
-            else:
-                with open(self._file_path, 'rb') as file_handler:
-                    file_handler.seek(shift)
-                    last_line = file_handler.readlines()[-1]
-            if b'</modeling>' in last_line:
-                # The XML file is not truncated.
-                xml_truncated = False
-
+        shift = max(self._file_size - 1024, 0)
+        if self._file_handler is not None:
+            self._file_handler.seek(shift)
+            tail = self._file_handler.read()
+            # Reset pointer
+            self._file_handler.seek(0)
+            if isinstance(tail, str):
+                # The handler was opened in text mode
+                tail = tail.encode('utf8')
+        else:
+            with open(self._file_path, 'rb') as file_handler:
+                file_handler.seek(shift)
+                tail = file_handler.read()
+        # The XML file is not truncated if its last line, blank lines aside, closes the document
+        xml_truncated = b'</modeling>' not in tail.rstrip().rpartition(b'\n')[2]
         self._xml_truncated = xml_truncated
-- 
2.43.0


From 1bed2b87fa4ead60d05af67604eeed6a3423a407 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 35/93] fix: accept text mode handlers of XML files in event
 mode

---
 parsevasp/vasprun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 1adbc76..1ac1477 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -342,7 +342,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if self._file_handler is None:
             filer = self._file_path
         else:
-            filer = self._file_handler
+            # Events need bytes, also when the handler was opened in text mode
+            filer = getattr(self._file_handler, 'buffer', self._file_handler)
 
         # Index that control the calculation step (e.g. ionic step)
         calc = 1
-- 
2.43.0


From 2bce74b4f57d5cfc48a1a2165b827a50b243be29 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 36/93] fix: exit as the other parsers do when the XML file is
 missing

---
 parsevasp/vasprun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 1ac1477..cf3519c 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -3619,7 +3619,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # check if file exists
             if not utils.file_exists(self._file_path, logger=self._logger):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SIZE])
-                return None
+                sys.exit(self.ERROR_FILE_NOT_FOUND)
 
             # Size given in bytes, assuming it is a file and it sits in a filesystem
             file_size = os.stat(self._file_path).st_size
-- 
2.43.0


From 9247101478dc6d21f1096bda64ff4a1dd91c9096 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 37/93] fix: read the content of XML elements when they end in
 event mode, not when they start

---
 parsevasp/vasprun.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index cf3519c..e63df7a 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -394,56 +394,57 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 extract_projected = False
 
             # Now fetch the data
+            # The content of an element is only complete when it ends
             if extract_generator:
                 try:
-                    if event == 'start' and element.attrib['name'] == 'version':
+                    if event == 'end' and element.attrib['name'] == 'version':
                         self._version = element.text
                 except KeyError:
                     pass
             if extract_parameters:
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SYMPREC':
+                    if event == 'end' and element.attrib['name'] == 'SYMPREC':
                         self._parameters['symprec'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'ISPIN':
+                    if event == 'end' and element.attrib['name'] == 'ISPIN':
                         self._parameters['ispin'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'ISMEAR':
+                    if event == 'end' and element.attrib['name'] == 'ISMEAR':
                         self._parameters['ismear'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SIGMA':
+                    if event == 'end' and element.attrib['name'] == 'SIGMA':
                         self._parameters['sigma'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NBANDS':
+                    if event == 'end' and element.attrib['name'] == 'NBANDS':
                         self._parameters['nbands'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NELECT':
+                    if event == 'end' and element.attrib['name'] == 'NELECT':
                         self._parameters['nelect'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SYSTEM':
+                    if event == 'end' and element.attrib['name'] == 'SYSTEM':
                         self._parameters['system'] = element.text
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NELM' \
+                    if event == 'end' and element.attrib['name'] == 'NELM' \
                         and element.getparent().attrib['name'] == 'electronic convergence':
                         self._parameters['nelm'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NSW':
+                    if event == 'end' and element.attrib['name'] == 'NSW':
                         self._parameters['nsw'] = self._convert_i(element)
                 except KeyError:
                     pass
@@ -773,17 +774,17 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
                 if extract_energies:
                     # Extrapolated energy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_0_energy':
-                        totens[calc].update({'energy_extrapolated_final': float(element.text)})
+                        totens[calc].update({'energy_extrapolated_final': self._convert_f(element)})
                     # Free energy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_fr_energy':
-                        totens[calc].update({'energy_free_final': float(element.text)})
+                        totens[calc].update({'energy_free_final': self._convert_f(element)})
                     # Energy without entropy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_wo_entrp':
-                        totens[calc].update({'energy_no_entropy_final': float(element.text)})
+                        totens[calc].update({'energy_no_entropy_final': self._convert_f(element)})
 
                 if extract_eigenvalues:
                     if event == 'start' and element.tag == 'set' \
@@ -967,7 +968,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         if event == 'start' and element.tag == 'v':
                             data.append(element)
                     try:
-                        if event == 'start' and \
+                        if event == 'end' and \
                            element.attrib['name'] == 'eigenvalues':
                             dynmat['eigenvalues'] = self._convert_array_f(element)
                     except KeyError:
@@ -983,7 +984,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
             if extract_kpointdata:
                 try:
-                    if event == 'start' and element.tag == 'v' and \
+                    if event == 'end' and element.tag == 'v' and \
                        element.attrib['name'] == 'divisions':
                         self._lattice['kpointdiv'] = self._convert_array_i(element)
                 except KeyError:
-- 
2.43.0


From eb05f4a647d8665bf60395bf136aa8e9afa574a5 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 38/93] fix: keep the ionic steps of XML files apart for any
 number of atoms and for steps without all entries

---
 parsevasp/vasprun.py | 115 +++++++++++--------------------------------
 1 file changed, 28 insertions(+), 87 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index e63df7a..ca28410 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1523,94 +1523,35 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 force[2] = None
         else:
             structures = self._findall(xml, './/calculation/structure')
-            entrycell = self._findall(xml, './/calculation/structure/crystal/varray[@name="basis"]/v')
-            entrypos = self._findall(xml, './/calculation/structure/varray[@name="positions"]/v')
-            entryforce = self._findall(xml, './/calculation/varray[@name="forces"]/v')
-            entrystress = self._findall(xml, './/calculation/varray[@name="stress"]/v')
-
-            if structures is not None:
-                num_calcs = len(structures)
-            else:
+            if structures is None:
                 return None, None, None, None
-
-            num_entrycell = 0
-            num_entrypos = 0
-            num_entryforce = 0
-            num_entrystress = 0
-
-            if entrycell is not None:
-                num_entrycell = len(entrycell)
-                cell[1] = self._convert_array2D_f(entrycell[0:3], 3)
-                if num_entrycell > 3:
-                    cell[2] = self._convert_array2D_f(entrycell[-3:], 3)
-                else:
-                    cell[2] = None
-            else:
-                cell[1] = None
-                cell[2] = None
-
-            if entrypos is not None:
-                num_entrypos = len(entrypos)
-                pos[1] = self._convert_array2D_f(entrypos[0:num_atoms], 3)
-                if num_entrypos > 3:
-                    pos[2] = self._convert_array2D_f(entrypos[-num_atoms:], 3)
-                else:
-                    pos[2] = None
-            else:
-                pos[1] = None
-                pos[2] = None
-
-            if entryforce is not None:
-                num_entryforce = len(entryforce)
-                force[1] = self._convert_array2D_f(entryforce[0:num_atoms], 3)
-                if num_entryforce > 3:
-                    force[2] = self._convert_array2D_f(entryforce[-num_atoms:], 3)
-                else:
-                    force[2] = None
-            else:
-                force[1] = None
-                force[2] = None
-
-            if entrystress is not None:
-                num_entrystress = len(entrystress)
-                stress[1] = self._convert_array2D_f(entrystress[0:3], 3)
-                if num_entrystress > 3:
-                    stress[2] = self._convert_array2D_f(entrystress[-3:], 3)
-                else:
-                    stress[2] = None
-            else:
-                stress[1] = None
-                stress[2] = None
-
-            max_entries = max(num_entrystress, max(num_entryforce, max(num_entrycell, num_entrypos)))
-            if max_entries > 6:
-                for calc in range(1, num_calcs):
-                    basecell = calc * 3
-                    basepos = calc * num_atoms
-                    if entrycell is not None:
-                        cell[calc + 1] = self._convert_array2D_f(entrycell[basecell:basecell + 3], 3)
-                    if entrypos is not None:
-                        pos[calc + 1] = self._convert_array2D_f(entrypos[basepos:basepos + num_atoms], 3)
-                    if entryforce is not None:
-                        force[calc + 1] = self._convert_array2D_f(entryforce[basepos:basepos + num_atoms], 3)
-                    if entrystress is not None:
-                        stress[calc + 1] = self._convert_array2D_f(entrystress[basecell:basecell + 3], 3)
-
-        # If we still only have one entry, or number two is None, last and initial should
-        # be the same, force them to be similar. We could do this earlier, but this is done
-        # to keep it tidy, and if one in the future would like to utilize the returned None.
-        if cell:
-            if len(cell) == 1 or cell[2] is None:
-                cell[2] = cell[1]
-        if pos:
-            if len(pos) == 1 or pos[2] is None:
-                pos[2] = pos[1]
-        if force:
-            if len(force) == 1 or force[2] is None:
-                force[2] = force[1]
-        if stress:
-            if len(stress) == 1 or stress[2] is None:
-                stress[2] = stress[1]
+            # Each calculation is extracted on its own, it is not given that all of them contain
+            # all the entries, nor, if the file is truncated, that the entries are complete
+            calculations = self._findall(xml, './/calculation')
+            for entries, path, num_rows in (
+                (cell, './structure/crystal/varray[@name="basis"]/v', 3),
+                (pos, './structure/varray[@name="positions"]/v', num_atoms),
+                (force, './varray[@name="forces"]/v', num_atoms),
+                (stress, './varray[@name="stress"]/v', 3),
+            ):
+                for calc, calculation in enumerate(calculations):
+                    entry = self._findall(calculation, path)
+                    if entry is not None and len(entry) == num_rows:
+                        entries[calc + 1] = self._convert_array2D_f(entry, 3)
+                if not entries:
+                    entries[1] = None
+                    entries[2] = None
+                elif len(calculations) == 1:
+                    # Only one entry, last and initial should be the same
+                    entries[2] = entries[1]
+            return cell, pos, force, stress
+
+        # If number two is None, last and initial should be the same, force them to be similar. We could
+        # do this earlier, but this is done to keep it tidy, and if one in the future would like to
+        # utilize the returned None.
+        for entries in (cell, pos, force, stress):
+            if entries[2] is None:
+                entries[2] = entries[1]
 
         return cell, pos, force, stress
 
-- 
2.43.0


From 5aafe2e71f5fc7036ce75849b1ad9ab38b2420a2 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 39/93] fix: do not pass the initial structure off as the last
 of truncated XML files, nor mix the rows of their steps

---
 parsevasp/vasprun.py | 106 ++++++++++++++++---------------------------
 1 file changed, 39 insertions(+), 67 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index ca28410..5d83622 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1483,75 +1483,47 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 return None, None, None, None
         num_atoms = species.shape[0]
 
-        if not extract_all:
-            entry = self._findall(xml, './/structure[@name="finalpos"]/crystal/varray[@name="basis"]/v')
-            if entry is not None:
-                cell[2] = self._convert_array2D_f(entry, 3)
-            else:
-                cell[2] = None
-            entry = self._findall(xml, './/structure[@name="initialpos"]/crystal/varray[@name="basis"]/v')
-            if entry is not None:
-                cell[1] = self._convert_array2D_f(entry, 3)
-            else:
-                cell[1] = None
-            entry = self._findall(xml, './/structure[@name="finalpos"]/varray[@name="positions"]/v')
-            if entry is not None:
-                pos[2] = self._convert_array2D_f(entry, 3)
-            else:
-                pos[2] = None
-            entry = self._findall(xml, './/structure[@name="initialpos"]/varray[@name="positions"]/v')
-            if entry is not None:
-                pos[1] = self._convert_array2D_f(entry, 3)
-            else:
-                pos[1] = None
-
-            entry = self._findall(xml, './/calculation/varray[@name="stress"]/v')
-
-            if entry is not None:
-                stress[1] = self._convert_array2D_f(entry[0:3], 3)
-                stress[2] = self._convert_array2D_f(entry[-3:], 3)
-            else:
-                stress[1] = None
-                stress[2] = None
+        structures = self._findall(xml, './/calculation/structure')
+        if structures is None and extract_all:
+            return None, None, None, None
+        # Each calculation is extracted on its own, it is not given that all of them contain
+        # all the entries, nor, if the file is truncated, that the entries are complete
+        calculations = self._findall(xml, './/calculation') or []
+        for entries, path, num_rows in (
+            (cell, './structure/crystal/varray[@name="basis"]/v', 3),
+            (pos, './structure/varray[@name="positions"]/v', num_atoms),
+            (force, './varray[@name="forces"]/v', num_atoms),
+            (stress, './varray[@name="stress"]/v', 3),
+        ):
+            for calc, calculation in enumerate(calculations):
+                entry = self._findall(calculation, path)
+                if entry is not None and len(entry) == num_rows:
+                    entries[calc + 1] = self._convert_array2D_f(entry, 3)
+            if not entries:
+                entries[1] = None
+                entries[2] = None
+            elif len(calculations) == 1:
+                # Only one entry, last and initial should be the same
+                entries[2] = entries[1]
 
-            entry = self._findall(xml, './/calculation/varray[@name="forces"]/v')
-            if entry is not None:
-                force[1] = self._convert_array2D_f(entry[0:num_atoms], 3)
-                force[2] = self._convert_array2D_f(entry[-num_atoms:], 3)
-            else:
-                force[1] = None
-                force[2] = None
-        else:
-            structures = self._findall(xml, './/calculation/structure')
-            if structures is None:
-                return None, None, None, None
-            # Each calculation is extracted on its own, it is not given that all of them contain
-            # all the entries, nor, if the file is truncated, that the entries are complete
-            calculations = self._findall(xml, './/calculation')
-            for entries, path, num_rows in (
-                (cell, './structure/crystal/varray[@name="basis"]/v', 3),
-                (pos, './structure/varray[@name="positions"]/v', num_atoms),
-                (force, './varray[@name="forces"]/v', num_atoms),
-                (stress, './varray[@name="stress"]/v', 3),
-            ):
-                for calc, calculation in enumerate(calculations):
-                    entry = self._findall(calculation, path)
-                    if entry is not None and len(entry) == num_rows:
-                        entries[calc + 1] = self._convert_array2D_f(entry, 3)
-                if not entries:
-                    entries[1] = None
-                    entries[2] = None
-                elif len(calculations) == 1:
-                    # Only one entry, last and initial should be the same
+        if not extract_all:
+            # Only keep the first and the last
+            for entries in (cell, pos, force, stress):
+                first, last = entries[min(entries)], entries[max(entries)]
+                entries.clear()
+                entries.update({1: first, 2: last})
+            # For the structure, these are also given separately
+            for calc, name in ((1, 'initialpos'), (2, 'finalpos')):
+                entry = self._findall(xml, './/structure[@name="' + name + '"]/crystal/varray[@name="basis"]/v')
+                if entry is not None and len(entry) == 3:
+                    cell[calc] = self._convert_array2D_f(entry, 3)
+                entry = self._findall(xml, './/structure[@name="' + name + '"]/varray[@name="positions"]/v')
+                if entry is not None and len(entry) == num_atoms:
+                    pos[calc] = self._convert_array2D_f(entry, 3)
+            # If number two is None, last and initial should be the same
+            for entries in (cell, pos):
+                if entries[2] is None:
                     entries[2] = entries[1]
-            return cell, pos, force, stress
-
-        # If number two is None, last and initial should be the same, force them to be similar. We could
-        # do this earlier, but this is done to keep it tidy, and if one in the future would like to
-        # utilize the returned None.
-        for entries in (cell, pos, force, stress):
-            if entries[2] is None:
-                entries[2] = entries[1]
 
         return cell, pos, force, stress
 
-- 
2.43.0


From 4253c11d323173750550df9dcfa891c6ac63a6c0 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 40/93] fix: detect overflow in every array of XML files and do
 not make up values of incomplete rows

---
 parsevasp/vasprun.py | 65 ++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 5d83622..d5e60d4 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2541,6 +2541,32 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         return projectors
 
+    def _convert_text(self, entry, dtype='double'):
+        """
+        Convert the content of the input entry to numbers.
+
+        Parameters
+        ----------
+        entry : object
+            An Element object containing numbers separated by blank spaces.
+        dtype : string, optional
+            The type of the numbers.
+
+        Returns
+        -------
+        data : ndarray
+            | Dimension: (N)
+            An array containing N numbers.
+
+        """
+
+        text = entry.text or ''
+        if '*' in text:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
+            sys.exit(self.ERROR_OVERFLOW)
+
+        return np.fromstring(text, sep=' ', dtype=dtype)
+
     def _convert_array_i(self, entry):
         """
         Convert the input entry to numpy array.
@@ -2561,12 +2587,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry is not None:
-            try:
-                data = np.fromstring(entry.text, sep=' ', dtype='intc')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data = self._convert_text(entry, dtype='intc')
 
         return data
 
@@ -2590,12 +2611,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry is not None:
-            try:
-                data = np.fromstring(entry.text, sep=' ', dtype='double')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data = self._convert_text(entry, dtype='double')
 
         return data
 
@@ -2621,12 +2637,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry is not None:
             data = np.zeros(len(entry), dtype='intc')
         for index, element in enumerate(entry):
-            try:
-                data[index] = np.fromstring(element.text, sep=' ')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data[index] = self._convert_text(element)
 
         return data
 
@@ -2653,12 +2664,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry is not None:
             data = np.zeros(len(entry), dtype='double')
         for index, element in enumerate(entry):
-            try:
-                data[index] = np.fromstring(element.text, sep=' ')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            values = self._convert_text(element)
+            # Do not make up what is not there
+            data[index] = values[0] if len(values) == 1 else np.nan
 
         return data
 
@@ -2688,12 +2696,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             data = np.zeros((len(entry), dim), dtype='double')
 
         for index, element in enumerate(entry):
-            try:
-                data[index] = np.fromstring(element.text, sep=' ')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            values = self._convert_text(element)
+            # Do not make up what is not there
+            data[index] = values if len(values) == dim else np.nan
 
         return data
 
-- 
2.43.0


From cc177c7cc07e12b84b31e96c54d90901362b3c7e Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 41/93] fix: read projections onto any set of orbitals from XML
 files

---
 parsevasp/vasprun.py | 71 ++++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 29 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index d5e60d4..f6ed726 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -485,16 +485,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
                     if data2:
-                        dos_ispin = self._convert_array2D_f(data, 10)
-                        # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
-                        dos_ispin = self._convert_array2D_f(data2, 10)
-                        # Do not need the energy term (similar to total)
-                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos['partial'] = self._extract_partial_dos(data, len(_dos['total']), num_atoms)
+                        _dos2['partial'] = self._extract_partial_dos(data2, len(_dos['total']), num_atoms)
                     else:
-                        dos_ispin = self._convert_array2D_f(data, 10)
-                        # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos['partial'] = self._extract_partial_dos(data, len(_dos['total']), num_atoms)
                     data = []
                     data2 = []
                 if event == 'end' and element.tag == 'dos' and extract_dos:
@@ -555,16 +549,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
                     if data2:
-                        dos_ispin = self._convert_array2D_f(data, 10)
-                        # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
-                        dos_ispin = self._convert_array2D_f(data2, 10)
-                        # Do not need the energy term (similar to total)
-                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos['partial'] = self._extract_partial_dos(data, len(_dos['total']), num_atoms)
+                        _dos2['partial'] = self._extract_partial_dos(data2, len(_dos['total']), num_atoms)
                     else:
-                        dos_ispin = self._convert_array2D_f(data, 10)
-                        # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos['partial'] = self._extract_partial_dos(data, len(_dos['total']), num_atoms)
                     data = []
                     data2 = []
                 if event == 'end' and element.tag == 'dos' and extract_dos_specific:
@@ -2076,9 +2064,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dosup['integrated'] = dos_ispin[:, 2]
             # check if partial exists
             if entry_partial_ispin1:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, 10)
-                # do not need the energy term (similar to total)
-                _dosup['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dosup['partial'] = self._extract_partial_dos(entry_partial_ispin1, len(entry_total_ispin1), num_atoms)
             else:
                 _dosup['partial'] = None
             dos['up'] = _dosup
@@ -2086,9 +2072,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dosdown['total'] = dos_ispin[:, 1]
             _dosdown['integrated'] = dos_ispin[:, 2]
             if entry_partial_ispin2:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin2, 10)
-                # do not need the energy term (similar to total)
-                _dosdown['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dosdown['partial'] = self._extract_partial_dos(entry_partial_ispin2, len(entry_total_ispin1), num_atoms)
             else:
                 _dosdown['partial'] = None
             dos['down'] = _dosdown
@@ -2103,9 +2087,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dos['integrated'] = dos_ispin[:, 2]
             # check if partial exists
             if entry_partial_ispin1:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, 10)
-                # do not need the energy term (similar to total)
-                _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dos['partial'] = self._extract_partial_dos(entry_partial_ispin1, len(entry_total_ispin1), num_atoms)
             else:
                 _dos['partial'] = None
             _dos['fermi_level'] = fermi_level
@@ -2113,6 +2095,35 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         return dos
 
+    def _extract_partial_dos(self, entries, num_energies, num_atoms):
+        """
+        Extract the partial density of states.
+
+        Parameters
+        ----------
+        entries : list
+            A list containing ElementTree objects of the partial density of states
+            for a given spin channel.
+        num_energies : int
+            The number of energies.
+        num_atoms : int
+            The number of atoms.
+
+        Returns
+        -------
+        partial : ndarray
+            The partial density of states for each atom, energy and orbital, or None if
+            there are not entries for all of these.
+
+        """
+
+        if len(entries) != num_energies * num_atoms:
+            return None
+        # The number of orbitals depends on LORBIT and on whether there are f states. Do not
+        # need the energy term (similar to total)
+        partial = self._convert_array2D_f(entries, len(self._convert_text(entries[0])))[:, 1:]
+        return np.asarray(np.split(partial, num_atoms))
+
     def _fetch_dielectricsw(self, xml, method='dft', transfer=None):
         """
         Fetch the dielectric function using etree.
@@ -2513,14 +2524,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if len(spin1) != num_bands * num_kpoints * num_atoms:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
             sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
-        pdata.append(self._convert_array2D_f(spin1, 9))
+        # Depends on LORBIT and on whether there are f states
+        num_orbitals = len(self._convert_text(spin1[0]))
+        pdata.append(self._convert_array2D_f(spin1, num_orbitals))
         pdata[0] = np.asarray(np.split(pdata[0], num_kpoints))
         pdata[0] = np.asarray(np.split(pdata[0], num_bands, axis=1))
         if spin2 is not None:
             if len(spin2) != num_bands * num_kpoints * num_atoms:
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
                 sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
-            pdata.append(self._convert_array2D_f(spin2, 9))
+            pdata.append(self._convert_array2D_f(spin2, num_orbitals))
             pdata[1] = np.asarray(np.split(pdata[1], num_kpoints))
             pdata[1] = np.asarray(np.split(pdata[1], num_bands, axis=1))
 
-- 
2.43.0


From 934883ed7a6186ef3c648d5a28d5c7400a78ba44 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 42/93] fix: keep the regular and the interpolated density of
 states of XML files apart

---
 parsevasp/vasprun.py | 93 +++++++++++++-------------------------------
 1 file changed, 27 insertions(+), 66 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index f6ed726..b2a6c6e 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -512,6 +512,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         _dos['fermi_level'] = fermi_level
                         dos['total'] = _dos
                     self._data['dos'] = copy.deepcopy(dos)
+                    dos = {}
                     data = []
                     data2 = []
                     data6 = []
@@ -575,7 +576,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         _dos['fermi_level'] = fermi_level
                         dos['total'] = _dos
-                    self._data['dos_specific'] = dos
+                    self._data['dos_specific'] = copy.deepcopy(dos)
+                    dos = {}
                     data = []
                     data2 = []
                     data6 = []
@@ -1944,30 +1946,6 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        # Fetch the Fermi level
-        entry = self._find(xml, './/calculation/dos/i[@name="efermi"]')
-
-        if entry is not None:
-            fermi_level = self._convert_f(entry)
-        else:
-            fermi_level = None
-
-        # Spin 1
-        entry_total_ispin1 = self._findall(xml, './/calculation/dos/total/array/set/set[@comment="spin 1"]/r')
-
-        # Spin 2
-        entry_total_ispin2 = self._findall(xml, './/calculation/dos/total/array/set/set[@comment="spin 2"]/r')
-
-        # Partial spin 1
-        entry_partial_ispin1 = self._findall(xml, './/calculation/dos/partial/array/set/set/set[@comment="spin 1"]/r')
-
-        # Partial spin 2
-        entry_partial_ispin2 = self._findall(xml, './/calculation/dos/partial/array/set/set/set[@comment="spin 2"]/r')
-
-        # If no entries for spin 1, eject right away
-        if entry_total_ispin1 is None:
-            return None, None
-
         num_atoms = 0
         species = self._lattice['species']
         if species is None:
@@ -1978,48 +1956,31 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 return None, None
         num_atoms = species.shape[0]
 
-        dos = self._extract_dos(
-            entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level, num_atoms
-        )
-
-        # Now extract the density of states for specific k-point grids
-        # fetch the Fermi level again as this can be different
-        entry = self._find(xml, './/calculation/dos[@comment="interpolated"]/i[@name="efermi"]')
-
-        if entry is not None:
-            fermi_level = self._convert_f(entry)
-        else:
-            fermi_level = None
-
-        # Spin 1
-        entry_total_ispin1 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/total/array/set/set[@comment="spin 1"]/r'
-        )
-
-        # Spin 2
-        entry_total_ispin2 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/total/array/set/set[@comment="spin 2"]/r'
-        )
-
-        # Partial spin 1
-        entry_partial_ispin1 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/partial/array/set/set/set[@comment="spin 1"]/r'
-        )
-
-        # Partial spin 2
-        entry_partial_ispin2 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/partial/array/set/set/set[@comment="spin 2"]/r'
-        )
-
-        # If no entries for spin 1, eject right away
-        if entry_total_ispin1 is None:
-            return dos, None
-
-        dos_specific = self._extract_dos(
-            entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level, num_atoms
-        )
+        # The density of states for specific k-point grids is given separately, also its
+        # Fermi level can be different
+        extracted = {None: None, 'interpolated': None}
+        for entry in self._findall(xml, './/calculation/dos') or []:
+            # Spin 1
+            entry_total_ispin1 = self._findall(entry, './total/array/set/set[@comment="spin 1"]/r')
+            # Spin 2
+            entry_total_ispin2 = self._findall(entry, './total/array/set/set[@comment="spin 2"]/r')
+            # Partial spin 1
+            entry_partial_ispin1 = self._findall(entry, './partial/array/set/set/set[@comment="spin 1"]/r')
+            # Partial spin 2
+            entry_partial_ispin2 = self._findall(entry, './partial/array/set/set/set[@comment="spin 2"]/r')
+            # If no entries for spin 1, there is nothing to extract
+            if entry_total_ispin1 is None:
+                continue
+            # Fetch the Fermi level
+            fermi_level = self._find(entry, './i[@name="efermi"]')
+            if fermi_level is not None:
+                fermi_level = self._convert_f(fermi_level)
+            extracted[entry.get('comment')] = self._extract_dos(
+                entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level,
+                num_atoms
+            )
 
-        return dos, dos_specific
+        return extracted[None], extracted['interpolated']
 
     def _extract_dos(
         self, entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level, num_atoms
-- 
2.43.0


From ebce044bc7bdca0041a484bde5c45cd944f47e42 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 43/93] fix: do not report the magnetization components of
 non-collinear XML projections as spin down

---
 parsevasp/vasprun.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index b2a6c6e..3811ba7 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -484,7 +484,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
-                    if data2:
+                    if _dos2:
                         _dos['partial'] = self._extract_partial_dos(data, len(_dos['total']), num_atoms)
                         _dos2['partial'] = self._extract_partial_dos(data2, len(_dos['total']), num_atoms)
                     else:
@@ -549,7 +549,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
-                    if data2:
+                    if _dos2:
                         _dos['partial'] = self._extract_partial_dos(data, len(_dos['total']), num_atoms)
                         _dos2['partial'] = self._extract_partial_dos(data2, len(_dos['total']), num_atoms)
                     else:
@@ -2472,8 +2472,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         # Number of kpoints to disect the eigenvalue sets later
         num_kpoints = self._lattice['kpoints'].shape[0]
 
-        # Value of ispin
-        # ispin = self._parameters['ispin']
+        if self._parameters['ispin'] != 2:
+            # For non-collinear calculations, what follows are the components of the magnetization, not a second spin
+            spin2 = None
 
         # Number of bands
         num_bands = self._parameters['nbands']
-- 
2.43.0


From 40083ee23ec777d3c8f50c3bd657cc5653912c00 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 44/93] fix: do not mix the dielectric functions of XML files
 that contain several of them

---
 parsevasp/vasprun.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 3811ba7..ed78e1a 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -285,6 +285,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         dos = {}
         totens = {}
         dynmat = {}
+        dielectrics = {}
         _dos = {}
         _dos2 = {}
 
@@ -659,12 +660,12 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 if event == 'start' and element.tag == 'dielectricfunction':
                     extract_dielectrics = True
                 if event == 'end' and element.tag == 'dielectricfunction':
-                    _diel = {}
-                    diel = np.split(self._convert_array2D_f(data, 7), 2)
-                    _diel['energy'] = diel[0][:, 0]
-                    _diel['imag'] = diel[0][:, 1:7]
-                    _diel['real'] = diel[1][:, 1:7]
-                    self._data['dielectrics'] = _diel
+                    if 'energy' not in dielectrics:
+                        # There can be several, use the first, as when the whole file is parsed
+                        diel = np.split(self._convert_array2D_f(data, 7), 2)
+                        dielectrics['energy'] = diel[0][:, 0]
+                        dielectrics['imag'] = diel[0][:, 1:7]
+                        dielectrics['real'] = diel[1][:, 1:7]
                     data = []
                     extract_dielectrics = False
                 if event == 'start' and element.tag == 'dynmat':
@@ -1058,6 +1059,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             force = None
         if not stress:
             stress = None
+        if not dielectrics:
+            dielectrics = None
 
         # Check totens for entries, if all arrays empty and no float detected set force totens to None
         found_totens = False
@@ -1083,6 +1086,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         self._data['forces'] = force
         self._data['stress'] = stress
         self._data['totens'] = totens
+        self._data['dielectrics'] = dielectrics
 
     def _fetch_versionw(self, xml):
         """
@@ -2158,8 +2162,11 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             else:
                 tag = 'dielectricfunction'
 
+            # There can be several, do not mix them
+            function = self._find(xml, './/calculation/' + tag)
+
             # imaginary part
-            entry = self._findall(xml, './/calculation/' + tag + '/imag/array/set/r')
+            entry = None if function is None else self._findall(function, './imag/array/set/r')
             if entry is None:
                 diel['imag'] = None
                 diel['energy'] = None
@@ -2169,7 +2176,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 diel['imag'] = data[:, 1:7]
 
             # real part
-            entry = self._findall(xml, './/calculation/' + tag + '/real/array/set/r')
+            entry = None if function is None else self._findall(function, './real/array/set/r')
             if entry is None:
                 diel['real'] = None
             else:
-- 
2.43.0


From 9e7d22e87400cd909ca9546c193db5c756463152 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 45/93] fix: extract the macroscopic dielectric tensors of XML
 files also in event mode

---
 parsevasp/vasprun.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index ed78e1a..54248b8 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -668,6 +668,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         dielectrics['real'] = diel[1][:, 1:7]
                     data = []
                     extract_dielectrics = False
+                if event == 'end' and element.tag == 'varray' and \
+                   element.attrib.get('name') in ('epsilon', 'epsilon_ion'):
+                    dielectrics[element.attrib['name']] = self._convert_array2D_f(element, 3)
                 if event == 'start' and element.tag == 'dynmat':
                     extract_dynmat = True
                 if event == 'end' and element.tag == 'dynmat':
@@ -1059,7 +1062,12 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             force = None
         if not stress:
             stress = None
-        if not dielectrics:
+        if dielectrics:
+            # Same keys as when the whole file is parsed
+            dielectrics = {
+                key: dielectrics.get(key) for key in ('imag', 'energy', 'real', 'epsilon', 'epsilon_ion')
+            }
+        else:
             dielectrics = None
 
         # Check totens for entries, if all arrays empty and no float detected set force totens to None
-- 
2.43.0


From d9657ecc862e15e597e1b97777f1409d8483dd49 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 46/93] fix: do not report spin up of truncated spin polarized
 XML files as the total

---
 parsevasp/vasprun.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 54248b8..0931530 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1983,6 +1983,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # If no entries for spin 1, there is nothing to extract
             if entry_total_ispin1 is None:
                 continue
+            # If the entries for spin 2 are missing (the file is truncated), what is left is not the total
+            if self._parameters['ispin'] == 2 and len(entry_total_ispin2 or []) != len(entry_total_ispin1):
+                continue
             # Fetch the Fermi level
             fermi_level = self._find(entry, './i[@name="efermi"]')
             if fermi_level is not None:
@@ -2325,7 +2328,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = []
 
-        if len(spin1) != num_bands * num_kpoints:
+        if len(spin1) != num_bands * num_kpoints or (self._parameters['ispin'] == 2 and spin2 is None):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
             sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
 
@@ -2414,7 +2417,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         eigenvelocities = {}
 
         data = []
-        if len(spin1) != num_bands * num_kpoints:
+        if len(spin1) != num_bands * num_kpoints or (self._parameters['ispin'] == 2 and spin2 is None):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
             sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
         data.append(self._convert_array2D_f(spin1, 4))
@@ -2498,7 +2501,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         projectors = {}
 
         pdata = []
-        if len(spin1) != num_bands * num_kpoints * num_atoms:
+        if len(spin1) != num_bands * num_kpoints * num_atoms or (self._parameters['ispin'] == 2 and spin2 is None):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
             sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
         # Depends on LORBIT and on whether there are f states
-- 
2.43.0


From 07504cb8f954b7a6e31b70c59b468ca05b964196 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 47/93] fix: do not assign the Born effective charges of
 truncated XML files to the wrong atoms

---
 parsevasp/vasprun.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 0931530..792d95f 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1436,9 +1436,13 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # and thus we cannot parse the entries in here either.
             species = self._fetch_speciesw(xml)
             if species is None:
-                return None, None, None, None
+                return None
         num_atoms = species.shape[0]
 
+        if len(entry) != 3 * num_atoms:
+            # Not given for all the atoms
+            return None
+
         born = self._convert_array2D_f(entry, 3)
 
         born = np.asarray(np.split(born, num_atoms))
-- 
2.43.0


From 908305b3cadb0b3cafc26ffa9451b3513abeba67 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 48/93] fix: do not report the number a truncated XML file ends
 in, as it can be incomplete

---
 parsevasp/vasprun.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 792d95f..2298022 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -224,6 +224,13 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 self._logger.debug('Running LXML in recovery mode.')
             parser = etree.XMLParser(recover=True)
             vaspxml = etree.parse(filer, parser=parser)
+            if self._xml_cut:
+                # The content of the element in which the file ends is not complete, do not use it
+                element = vaspxml.getroot()
+                while len(element):
+                    element = element[-1]
+                if element.getparent() is not None:
+                    element.getparent().remove(element)
         else:
             vaspxml = etree.parse(filer)
 
@@ -3579,3 +3586,6 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         # The XML file is not truncated if its last line, blank lines aside, closes the document
         xml_truncated = b'</modeling>' not in tail.rstrip().rpartition(b'\n')[2]
         self._xml_truncated = xml_truncated
+        # Check also if it ends in the content of an element
+        _, bracket, last = tail.rpartition(b'<')
+        self._xml_cut = not bracket or (not last.startswith((b'/', b'!', b'?')) and b'>' in last)
-- 
2.43.0


From 3aed94f3667164ebf39dc254d8f16ee2ba7cb15d Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 49/93] fix: return None for quantities not present in the XML
 file instead of failing

---
 parsevasp/vasprun.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 2298022..e1e877b 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2895,7 +2895,17 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
     def get_epsilon(self):
         """
-        Return the """
+        Return the macroscopic dielectric tensor.
+
+        Returns
+        -------
+        epsilon : ndarray
+            A 3x3 tensor containing the macroscopic dielectric tensor, or None if it is not present.
+
+        """
+
+        if self._data['dielectrics'] is None:
+            return None
         epsilon = self._data['dielectrics']['epsilon']
         return epsilon
 
@@ -2911,6 +2921,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        if self._data['dielectrics'] is None:
+            return None
         epsilon_ion = self._data['dielectrics']['epsilon_ion']
         return epsilon_ion
 
@@ -2925,6 +2937,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        if self._data['dos'] is None:
+            return None
         fermi_level = self._data['dos']['total']['fermi_level']
         return fermi_level
 
@@ -2940,6 +2954,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        if self._data['dos_specific'] is None:
+            return None
         fermi_level_specific = self._data['dos_specific']['total']['fermi_level']
         return fermi_level_specific
 
@@ -3458,6 +3474,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         import re
 
+        if self._version is None:
+            return None
         version = self._version.strip()
         # The version entry in the xml file is typically of the form
         # X.Y.Z or X.Y.Z.something so only keep three integers and two dots
-- 
2.43.0


From 6599e2c08cf6c7a95850a9ddde942e11acdf46e9 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 50/93] fix: do not report the magnetization density of states
 of non-collinear XML files as spin down

---
 parsevasp/vasprun.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index e1e877b..8af47f9 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -465,7 +465,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 if event == 'start' and element.tag == 'dos' and element.attrib.get('comment') is None:
                     extract_dos = True
                 if event == 'end' and element.tag == 'total' and extract_dos:
-                    if data2:
+                    if data2 and self._parameters['ispin'] == 2:
                         # Only store energy for one part as
                         # this is the same for both
                         dos_ispin = self._convert_array2D_f(data, 3)
@@ -530,7 +530,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 if event == 'start' and element.tag == 'dos' and element.attrib.get('comment') == 'interpolated':
                     extract_dos_specific = True
                 if event == 'end' and element.tag == 'total' and extract_dos_specific:
-                    if data2:
+                    if data2 and self._parameters['ispin'] == 2:
                         # Only store energy for one part as
                         # this is the same for both
                         dos_ispin = self._convert_array2D_f(data, 3)
@@ -1991,6 +1991,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             entry_partial_ispin1 = self._findall(entry, './partial/array/set/set/set[@comment="spin 1"]/r')
             # Partial spin 2
             entry_partial_ispin2 = self._findall(entry, './partial/array/set/set/set[@comment="spin 2"]/r')
+            if self._parameters['ispin'] != 2:
+                # For non-collinear calculations, what follows are the components of the magnetization, not a second spin
+                entry_total_ispin2 = None
+                entry_partial_ispin2 = None
             # If no entries for spin 1, there is nothing to extract
             if entry_total_ispin1 is None:
                 continue
-- 
2.43.0


From c4e1b0a06130816e2e5b0a98b3cc83171a0d6b9b Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 51/93] fix: do not count the element whose tag a truncated XML
 file ends in

---
 parsevasp/vasprun.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 8af47f9..8aa523f 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -224,13 +224,12 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 self._logger.debug('Running LXML in recovery mode.')
             parser = etree.XMLParser(recover=True)
             vaspxml = etree.parse(filer, parser=parser)
-            if self._xml_cut:
-                # The content of the element in which the file ends is not complete, do not use it
-                element = vaspxml.getroot()
-                while len(element):
-                    element = element[-1]
-                if element.getparent() is not None:
-                    element.getparent().remove(element)
+            # If the content or the tag of the element in which the file ends is not complete, do not use it
+            element = vaspxml.getroot()
+            while element is not None and len(element):
+                element = element[-1]
+            if element is not None and (self._xml_cut or element.text is None) and element.getparent() is not None:
+                element.getparent().remove(element)
         else:
             vaspxml = etree.parse(filer)
 
-- 
2.43.0


From 9041688e35a2694d92058e2366b306cf158fc6d4 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 52/93] fix: do not accept entries of POSCAR and KPOINTS that
 are not allowed but contain an allowed name

---
 parsevasp/kpoints.py | 5 ++---
 parsevasp/poscar.py  | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 0910d63..d3cb213 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -423,9 +423,8 @@ class Kpoints(BaseParser):
 
         """
 
-        if not (('comment' in entry) or ('points' in entry) or ('tetra' in entry) or ('tetra_volume' in entry) or
-                ('divisions' in entry) or ('mode' in entry) or ('num_kpoints' in entry) or ('shifts' in entry) or
-                ('centering') in entry or ('generating_vectors') in entry):
+        if entry not in ('comment', 'points', 'tetra', 'tetra_volume', 'divisions', 'mode', 'num_kpoints', 'shifts',
+                         'centering', 'generating_vectors'):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_TAG])
             sys.exit(self.ERROR_INVALID_TAG)
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index ae08465..d5f5623 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -459,7 +459,7 @@ class Poscar(BaseParser):
 
         """
 
-        if not (('comment' in entry) or ('unitcell' in entry) or ('sites' in entry)):
+        if entry not in ('comment', 'unitcell', 'sites'):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_ENTRY])
             sys.exit(self.ERROR_INVALID_ENTRY)
 
-- 
2.43.0


From abd9e2ae23099b3f80e830de8ef7daa39adf8e55 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 53/93] fix: do not edit the lists of sites and points supplied
 when modifying POSCAR and KPOINTS

---
 parsevasp/kpoints.py | 3 ++-
 parsevasp/poscar.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index d3cb213..9c5d65c 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -349,7 +349,8 @@ class Kpoints(BaseParser):
             if entry == 'num_kpoints':
                 self._check_num_kpoints(num_kpoints=value)
 
-            self.entries[entry] = value
+            # Later edits should not reach the list that was supplied
+            self.entries[entry] = list(value) if isinstance(value, list) else value
             if entry == 'points':
                 self._update_num_kpoints()
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index d5f5623..44d0489 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -402,7 +402,8 @@ class Poscar(BaseParser):
             if entry == 'unitcell':
                 self._check_unitcell(unitcell=value)
 
-            self.entries[entry] = value
+            # Later edits should not reach the list that was supplied
+            self.entries[entry] = list(value) if entry == 'sites' else value
 
     def delete_site(self, site_number):
         """
-- 
2.43.0


From 7df204f93b06442df6af1457b36dbd108833eda7 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 54/93] fix: refuse lists that contain something else than
 sites and points when modifying POSCAR and KPOINTS

---
 parsevasp/kpoints.py | 1 +
 parsevasp/poscar.py  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 9c5d65c..9f6e787 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -326,6 +326,7 @@ class Kpoints(BaseParser):
                 # Check that all points are in direct, if not,
                 # convert
                 for point in value:
+                    self._check_point(point)
                     if not point.get_direct():
                         point = self._to_direct(point)
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_CONVERSION])
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 44d0489..abc4844 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -397,6 +397,8 @@ class Poscar(BaseParser):
         else:
             if entry == 'sites':
                 self._check_sites(sites=value)
+                for site in value:
+                    self._check_site(site)
             if entry == 'comment':
                 self._check_comment(comment=value)
             if entry == 'unitcell':
-- 
2.43.0


From 15a8cafacdbf343b43ce5f35af5003324a6a966f Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 55/93] fix: refuse None when modifying entries of POSCAR and
 KPOINTS that have to be present

---
 parsevasp/kpoints.py | 11 +++++++----
 parsevasp/poscar.py  |  7 ++++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 9f6e787..239f80c 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -308,9 +308,12 @@ class Kpoints(BaseParser):
         self._check_allowed_entries(entry)
         # Check that entries exists
         self._check_dict()
+        if value is None and entry in ('mode', 'num_kpoints'):
+            self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key '{entry}' can not be None.")
+            sys.exit(self.ERROR_KEY_INVALID_TYPE)
         if point_number is not None:
-            # Check that a Kpoint() object is supplied
-            self._check_point(value)
+            # Check that a Kpoint() object is supplied, None would check the points already present
+            self._check_point(False if value is None else value)
             # Check site number
             self._check_point_number(point_number)
             # Check that position is an integer
@@ -325,8 +328,8 @@ class Kpoints(BaseParser):
                 self._check_points(points=value)
                 # Check that all points are in direct, if not,
                 # convert
-                for point in value:
-                    self._check_point(point)
+                for point in value if value is not None else []:
+                    self._check_point(False if point is None else point)
                     if not point.get_direct():
                         point = self._to_direct(point)
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_CONVERSION])
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index abc4844..560f117 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -384,6 +384,10 @@ class Poscar(BaseParser):
         self._check_allowed_entries(entry)
         # Check that entries exists
         self._check_dict()
+        if value is None and entry != 'comment':
+            # Only the comment can be removed
+            self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key '{entry}' can not be None.")
+            sys.exit(self.ERROR_KEY_INVALID_TYPE)
         if site_number is not None:
             # Check that a Site() object is supplied
             self._check_site(value)
@@ -398,7 +402,8 @@ class Poscar(BaseParser):
             if entry == 'sites':
                 self._check_sites(sites=value)
                 for site in value:
-                    self._check_site(site)
+                    # None would check the sites already present
+                    self._check_site(False if site is None else site)
             if entry == 'comment':
                 self._check_comment(comment=value)
             if entry == 'unitcell':
-- 
2.43.0


From 099d70d7f87a2eb51bd510c3dae52bfdd8b447a2 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 56/93] fix: refuse divisions, shifts and generating vectors of
 KPOINTS that do not have three elements

---
 parsevasp/kpoints.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 239f80c..be953fc 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -550,9 +550,10 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'shifts'.")
                 sys.exit(self.ERROR_NO_KEY)
         if shifts is not None:
-            if not isinstance(shifts, list):
+            if not isinstance(shifts, list) or len(shifts) != 3:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'shifts' should be a list."
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} "
+                    "The key 'shifts' should be a list of three floats."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
@@ -608,9 +609,10 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'divisions'.")
                 sys.exit(self.ERROR_NO_KEY)
         if divisions is not None:
-            if not isinstance(divisions, list):
+            if not isinstance(divisions, list) or len(divisions) != 3:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'divisions' should be a list."
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} "
+                    "The key 'divisions' should be a list of three integers."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
@@ -642,17 +644,18 @@ class Kpoints(BaseParser):
                 )
                 sys.exit(self.ERROR_NO_KEY)
         if generating_vectors is not None:
-            if not isinstance(generating_vectors, list):
+            if not isinstance(generating_vectors, list) or len(generating_vectors) != 3:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'generating_vectors' should be a list."
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} "
+                    "The key 'generating_vectors' should be a list of three lists."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
                 for vec in generating_vectors:
-                    if not isinstance(vec, list):
+                    if not isinstance(vec, list) or len(vec) != 3:
                         self._logger.error(
                             f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
-                            "The key 'generating_vectors' should be a list of lists."
+                            "The key 'generating_vectors' should be a list of lists of three floats."
                         )
                         sys.exit(self.ERROR_KEY_INVALID_TYPE)
                     for element in vec:
-- 
2.43.0


From df309038f24cb9b38780c5ec333e76adbb7690d6 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 57/93] fix: fall back to the ElementTree of the standard
 library when lxml is not installed

---
 parsevasp/vasprun.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 8aa523f..8998893 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -25,8 +25,12 @@ except ImportError:
             # normal ElementTree
             import elementtree.ElementTree as etree
         except ImportError:
-            logging.error('Failed to import ElementTree.')
-            sys.exit('Failed to import ElementTree.')
+            try:
+                # the one in the standard library
+                from xml.etree import ElementTree as etree
+            except ImportError:
+                logging.error('Failed to import ElementTree.')
+                sys.exit('Failed to import ElementTree.')
 
 _SUPPORTED_TOTAL_ENERGIES = {
     'energy_extrapolated': 'e_0_energy',
@@ -354,7 +358,13 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         # Index that control the calculation step (e.g. ionic step)
         calc = 1
+        # The elements that are open, as only lxml knows the parent of an element
+        parents = []
         for event, element in etree.iterparse(filer, events=('start', 'end')):  # pylint: disable=R1702
+            if event == 'start':
+                parents.append(element)
+            else:
+                parents.pop()
             # Set extraction points (what to read and when to read it)
             # here we also set the relevant data elements when the tags
             # close when they contain more than one element
@@ -446,7 +456,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     pass
                 try:
                     if event == 'end' and element.attrib['name'] == 'NELM' \
-                        and element.getparent().attrib['name'] == 'electronic convergence':
+                        and parents and parents[-1].attrib['name'] == 'electronic convergence':
                         self._parameters['nelm'] = self._convert_i(element)
                 except KeyError:
                     pass
-- 
2.43.0


From e7927172144a15c9f3f9d9cbf944d9ec50e7a10e Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 58/93] fix: keep the file when the content can not be written

---
 parsevasp/base.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/parsevasp/base.py b/parsevasp/base.py
index 249ca50..f768615 100644
--- a/parsevasp/base.py
+++ b/parsevasp/base.py
@@ -1,5 +1,6 @@
 """Base class to handle VASP files."""
 # pylint: disable=consider-using-with
+import io
 import logging
 import os
 import sys
@@ -86,15 +87,22 @@ class BaseParser(ABC):  # pylint: disable=R0903
 
         file_path = kwargs.pop('file_path', '')
         file_handler = kwargs.pop('file_handler', '')
-        if file_path:
-            # Open file
-            file_handler = open_close_file_handler(file_path, status='w', logger=self._logger)
 
         # Do the write for each specific content parser _write function using handler, also
         # bring any extra arguments.
-        self._write(file_handler, **kwargs)
+        if not file_path:
+            self._write(file_handler, **kwargs)
+            return
 
-        if file_path:
+        # Opening the file removes what it contains, so make sure first that there is something to write.
+        content = io.StringIO()
+        self._write(content, **kwargs)
+
+        # Open file
+        file_handler = open_close_file_handler(file_path, status='w', logger=self._logger)
+        try:
+            file_handler.write(content.getvalue())
+        finally:
             # Close file
             open_close_file_handler(file_handler=file_handler, logger=self._logger)
 
-- 
2.43.0


From e1dcc4e5e0f118594a5319b00757c847ca35c1e4 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 59/93] fix: check the KPOINTS points before anything is
 written

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index be953fc..1dd1a5c 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -904,11 +904,11 @@ class Kpoints(BaseParser):
             comment = '# No comment'
         else:
             comment = '# ' + comment
-        file_handler.write(comment + '\n')
         # Check mode
         mode = entries['mode']
         if mode in ('explicit', 'line'):
             self._check_direct(entries['points'])
+        file_handler.write(comment + '\n')
         if mode == 'explicit':
             file_handler.write(f"{len(entries['points']):6d}\n")
             # Points should already be direct
-- 
2.43.0


From 75f6339fd8e6fdc3108e991bd4f17a1b9ad531e9 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 60/93] fix: do not write empty POTCAR files, refuse as the
 other parsers do

---
 parsevasp/potcar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index c98fdff..2838526 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -209,5 +209,6 @@ class Potcar(BaseParser):
         except Exception as exc:
             raise AttributeError(attribute) from exc
 
-    def _write(self, file_handler, **kwargs):
-        pass
+    def _write(self, *args, **kwargs):
+        """Write not supported for POTCAR."""
+        raise NotImplementedError('Writing POTCAR files is not supported.')
-- 
2.43.0


From 685199ee48b3e6356b0e51ac5d0dc67e1d1f0bfa Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 61/93] fix: report an empty path or handler given to write as
 documented

---
 parsevasp/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parsevasp/base.py b/parsevasp/base.py
index f768615..a255640 100644
--- a/parsevasp/base.py
+++ b/parsevasp/base.py
@@ -85,6 +85,13 @@ class BaseParser(ABC):  # pylint: disable=R0903
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
+        if 'file_path' in kwargs and not kwargs['file_path']:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_EMPTY_FILE_PATH])
+            sys.exit(self.ERROR_EMPTY_FILE_PATH)
+        if 'file_handler' in kwargs and kwargs['file_handler'] is None:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_EMPTY_HANDLER])
+            sys.exit(self.ERROR_EMPTY_HANDLER)
+
         file_path = kwargs.pop('file_path', '')
         file_handler = kwargs.pop('file_handler', '')
 
-- 
2.43.0


From 8d20de7592834dffeb929e27d4ee0fd21347ed3f Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 62/93] fix: keep the number of explicit KPOINTS in step with
 the points also when the mode changes

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 1dd1a5c..92f35b9 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -355,7 +355,7 @@ class Kpoints(BaseParser):
 
             # Later edits should not reach the list that was supplied
             self.entries[entry] = list(value) if isinstance(value, list) else value
-            if entry == 'points':
+            if entry in ('points', 'mode'):
                 self._update_num_kpoints()
 
     def delete_point(self, point_number):
-- 
2.43.0


From 6ea6afbfeb4cae3454bc13bdf3a7a7152db9643b Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:46 +0000
Subject: [PATCH 63/93] fix: send the message about missing files to the logger
 supplied

---
 parsevasp/chgcar.py   | 2 +-
 parsevasp/doscar.py   | 2 +-
 parsevasp/eigenval.py | 2 +-
 parsevasp/incar.py    | 2 +-
 parsevasp/kpoints.py  | 2 +-
 parsevasp/outcar.py   | 2 +-
 parsevasp/poscar.py   | 2 +-
 parsevasp/potcar.py   | 2 +-
 parsevasp/stream.py   | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 0eeaa92..8310d58 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -60,7 +60,7 @@ class Chgcar(BaseParser):
         This method is presently not optimized to use as little memory as possible.
 
         """
-        content = utils.read_from_file(self._file_path, self._file_handler, lines=False)
+        content = utils.read_from_file(self._file_path, self._file_handler, lines=False, logger=self._logger)
         # Extract header
         temp = utils.empty_line.split(content, maxsplit=1)
         header = temp[0]
diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 4fdd068..34a36a5 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -155,7 +155,7 @@ class Doscar(BaseParser):
 
         """
 
-        doscar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        doscar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         self._from_list(doscar)
 
     def _from_list(self, doscar):
diff --git a/parsevasp/eigenval.py b/parsevasp/eigenval.py
index c346b80..0ab3b7c 100644
--- a/parsevasp/eigenval.py
+++ b/parsevasp/eigenval.py
@@ -63,7 +63,7 @@ class Eigenval(BaseParser):
 
         """
 
-        eigenval = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        eigenval = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         self._from_list(eigenval)
 
     def _from_list(self, eigenval):
diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index e320484..9bf4994 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -110,7 +110,7 @@ class Incar(BaseParser):
 
         """
 
-        incar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        incar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         return incar
 
     def _from_string(self):
diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 92f35b9..151b362 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -131,7 +131,7 @@ class Kpoints(BaseParser):
 
         """
 
-        kpoints = utils.read_from_file(self._file_path, self._file_handler)
+        kpoints = utils.read_from_file(self._file_path, self._file_handler, logger=self._logger)
         kpoints_dict = self._from_list(kpoints)
         return kpoints_dict
 
diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 70d6406..07a449c 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -110,7 +110,7 @@ class Outcar(BaseParser):
         file and store them in the this instance's data dictionary.
         """
 
-        outcar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        outcar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         self._from_list(outcar)
 
     def _from_list(self, outcar):  # pylint: disable=R0915
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 560f117..b828ab5 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -123,7 +123,7 @@ class Poscar(BaseParser):
 
         """
 
-        poscar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        poscar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         poscar_dict = self._from_list(poscar)
         return poscar_dict
 
diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 2838526..48969ae 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -86,7 +86,7 @@ class Potcar(BaseParser):
 
         """
 
-        potcar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', lines=False)
+        potcar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', lines=False, logger=self._logger)
 
         return self._generate_metadata(potcar)
 
diff --git a/parsevasp/stream.py b/parsevasp/stream.py
index b4d3dd2..a0b3c4f 100644
--- a/parsevasp/stream.py
+++ b/parsevasp/stream.py
@@ -186,7 +186,7 @@ class Stream(BaseParser):  # pylint: disable=R0902
 
         """
 
-        stream = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        stream = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         self._from_list(stream)
 
     def _from_list(self, stream):
-- 
2.43.0


From 9d6bd665f605121da363d809796b98bea8ce3ffb Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:48 +0000
Subject: [PATCH 64/93] fix: report missing keys and wrong points of a KPOINTS
 dictionary as documented

---
 parsevasp/kpoints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 151b362..305d2ef 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -412,8 +412,8 @@ class Kpoints(BaseParser):
 
         # Check that at least divisions or points are set
         # to something else than None
-        if ((self.entries['divisions'] is None) and (self.entries['points'] is None) and
-            (self.entries['generating_vectors'] is None)):
+        if ((self.entries.get('divisions') is None) and (self.entries.get('points') is None) and
+            (self.entries.get('generating_vectors') is None)):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_DIVISIONS])
             sys.exit(self.ERROR_DIVISIONS)
 
@@ -787,6 +787,8 @@ class Kpoints(BaseParser):
         self._check_dict()
         self._check_comment()
         self._check_points()
+        if self.entries['points'] is not None:
+            self._check_point()
         self._check_centering()
         self._check_divisions()
         self._check_generating_vectors()
-- 
2.43.0


From 42f5b506c2450ea0115f842ad758a209c13355b4 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 65/93] fix: report wrong and incomplete sites of a POSCAR
 dictionary as documented

---
 parsevasp/poscar.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index b828ab5..3f58266 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -143,14 +143,21 @@ class Poscar(BaseParser):
 
         """
 
-        if not isinstance(self._poscar_dict.get('sites'), list):
+        if (
+            not isinstance(self._poscar_dict.get('sites'), list) or
+            not isinstance(self._poscar_dict.get('unitcell'), np.ndarray)
+        ):
             # Reported when validating
             return
 
         sites = []
         for site in self._poscar_dict['sites']:
-            if not isinstance(site, Site):
+            if isinstance(site, dict):
                 # Entry is not of a Site type, convert it
+                for key in ('specie', 'position', 'selective', 'velocities', 'predictors', 'direct'):
+                    if key not in site:
+                        self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is '{key}'.")
+                        sys.exit(self.ERROR_NO_KEY)
                 direct = site['direct']
                 position = site['position']
                 velocities = site['velocities']
@@ -161,7 +168,7 @@ class Poscar(BaseParser):
                         velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
                     direct = True
                 site = Site(site['specie'], position, site['selective'], velocities, site['predictors'], direct)
-            else:
+            elif isinstance(site, Site):
                 if not site.get_direct():
                     # Cartesian, so convert. The site that was supplied is left alone.
                     position = self._to_direct(site.get_position(), self._poscar_dict['unitcell'])
@@ -608,6 +615,7 @@ class Poscar(BaseParser):
         self._check_comment()
         self._check_unitcell()
         self._check_sites()
+        self._check_site()
 
     def _sort_and_group_sites(self):
         """
-- 
2.43.0


From 0a940e683079441431e59941e9cf5975833fe2e4 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 66/93] fix: do not drop the predictors of a POSCAR with
 Windows line ends or tabs in the blank line

---
 parsevasp/poscar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 3f58266..733860a 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -299,7 +299,7 @@ class Poscar(BaseParser):
                 # Make sure we convert velocities to direct if they are cartesian, and
                 # only then, the positions could be given differently
                 direct = first_char == 'd'
-            elif poscar[loopmax_pos].replace(' ', '') == '\n':
+            elif not poscar[loopmax_pos].strip():
                 predictor = True
         # Now check that the next line is in fact a coordinate
         loopmax_pos = loopmax_pos + 1
@@ -329,7 +329,7 @@ class Poscar(BaseParser):
             # the velocities
             loopmax_pos = nions + loopmax_pos
             if len(poscar) > loopmax_pos:
-                if poscar[loopmax_pos].replace(' ', '') == '\n':
+                if not poscar[loopmax_pos].strip():
                     loopmax_pos = loopmax_pos + 1
                     if utils.is_number(poscar[loopmax_pos].split()[0]):
                         for i in range(nions):
-- 
2.43.0


From 9bc2c7b045cdf185a016a2f1710add1af93d0815 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 67/93] fix: split INCAR, POSCAR and KPOINTS strings into lines
 as files are

---
 parsevasp/incar.py   | 2 +-
 parsevasp/kpoints.py | 2 +-
 parsevasp/poscar.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 9bf4994..c9de3a1 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -119,7 +119,7 @@ class Incar(BaseParser):
 
         """
 
-        incar = self._incar_string.splitlines()
+        incar = io.StringIO(self._incar_string, newline=None).readlines()
         return incar
 
     def _from_list(self, incar):
diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 305d2ef..c993730 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -141,7 +141,7 @@ class Kpoints(BaseParser):
 
         """
 
-        kpoints = self._kpoints_string.splitlines()
+        kpoints = io.StringIO(self._kpoints_string, newline=None).readlines()
         kpoints_dict = self._from_list(kpoints)
         return kpoints_dict
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 733860a..4ccf6c2 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -133,7 +133,7 @@ class Poscar(BaseParser):
 
         """
 
-        poscar = self._poscar_string.splitlines(True)
+        poscar = io.StringIO(self._poscar_string, newline=None).readlines()
         poscar_dict = self._from_list(poscar)
         return poscar_dict
 
-- 
2.43.0


From 1d4c5e75c2a2a84923640e6b8db8ab8c04f1c3ce Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 68/93] fix: read CHGCAR content with Windows line ends from
 handlers, too

---
 parsevasp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 6ba1e6f..6c8e61f 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -410,4 +410,4 @@ def line_to_type(fobject_or_string, d_type=str, no_split=False):
     return result
 
 
-empty_line = re.compile(r'[\r\n]\s*[\r\n]')
+empty_line = re.compile(r'\n\s*\n')
-- 
2.43.0


From 5799fb63a94676afac559b2ed6f5dd91b9a8dde6 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:22 +0000
Subject: [PATCH 69/93] fix: find entries at the end of lines of OUTCAR and
 standard streams also with Windows line ends

---
 parsevasp/outcar.py | 2 +-
 parsevasp/stream.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 07a449c..b1c78d3 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -408,7 +408,7 @@ class Outcar(BaseParser):
         """
         info = {}
         time_mem_pattern = re.compile(r'\((sec|kb)\)')
-        mem_pattern = re.compile(r':.*kBytes$')
+        mem_pattern = re.compile(r':.*kBytes\s*$')
         for _, line in enumerate(timing_lines):
             if time_mem_pattern.search(line):
                 tokens = line.strip().split(':')
diff --git a/parsevasp/stream.py b/parsevasp/stream.py
index a0b3c4f..92588d8 100644
--- a/parsevasp/stream.py
+++ b/parsevasp/stream.py
@@ -210,6 +210,8 @@ class Stream(BaseParser):  # pylint: disable=R0902
         for kind, _ in stream_triggers.items():
             ignore[kind] = []
         for _, line in enumerate(stream):  # pylint: disable=too-many-nested-blocks
+            # Handlers do not have to translate Windows line ends
+            line = line.replace('\r\n', '\n')
             # Go though all entries in the stream triggers
             for kind, triggers in stream_triggers.items():
                 # Not check all the triggers of the given kind
-- 
2.43.0


From 415409f36a9fc163168cc32acd2c605663a891a3 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 70/93] fix: leave handlers at the end of the KPOINTS lines
 written, so that nothing is lost or left by what follows

---
 parsevasp/kpoints.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index c993730..84756b9 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -988,8 +988,10 @@ class Kpoints(BaseParser):
             file_handler.write('Line-mode\n')
             # Assume points to be direct
             file_handler.write('Direct\n')
-            complete_set = 1
-            for _, point in enumerate(entries['points']):
+            for index, point in enumerate(entries['points']):
+                if index > 0 and index % 2 == 0:
+                    # Separate the line segments, which contain two points each
+                    file_handler.write('\n')
                 coordinate = point.get_point()
                 file_handler.write(
                     '{:{width}.{prec}f} {:{width}.{prec}f} '
@@ -997,11 +999,6 @@ class Kpoints(BaseParser):
                         coordinate[0], coordinate[1], coordinate[2], prec=self._prec, width=self._width
                     )
                 )
-                if complete_set == 2:
-                    file_handler.write('\n')
-                    complete_set = 0
-                complete_set = complete_set + 1
-            utils.remove_newline(file_handler)
 
 
 class Kpoint:
-- 
2.43.0


From 56472a826c2adc1665e4ab5814a7df3eb9faaf75 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 71/93] fix: report missing species, not a missing number of
 bands, when the projectors lack them in vasprun.xml

---
 parsevasp/vasprun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 8998893..6a542e1 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2506,8 +2506,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         num_atoms = 0
         # Also need the number of atoms if the projected values are supplied
         if self._lattice['species'] is None:
-            self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_NBANDS])
-            sys.exit(self.ERROR_NO_NBANDS)
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
+            sys.exit(self.ERROR_NO_SPECIES)
         else:
             num_atoms = self._lattice['species'].shape[0]
 
-- 
2.43.0


From 44621efae80047642e8704e47671962fd1ab86aa Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 72/93] fix: report missing k-points in vasprun.xml with the
 documented error also when eigenvalues need them

---
 parsevasp/vasprun.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 6a542e1..a6ee2d4 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -636,7 +636,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 ):
                     extract_eigenvalues = True
                 if event == 'end' and element.tag == 'eigenvalues' and extract_eigenvalues:
-                    num_kpoints = len(self._lattice['kpoints'])
+                    num_kpoints = self._get_num_kpoints(self._lattice['kpoints'])
                     if not data2:
                         eigenvalues, occupancies = self._extract_eigenvalues(data, None, num_kpoints)
                     else:
@@ -652,7 +652,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     extract_eigenvalues_specific = True
 
                 if event == 'end' and element.tag == 'eigenvalues' and extract_eigenvalues_specific:
-                    num_kpoints = len(self._data['kpoints'])
+                    num_kpoints = self._get_num_kpoints(self._data['kpoints'])
                     if not data2:
                         eigenvalues_specific, _ = self._extract_eigenvalues(data, None, num_kpoints)
                     else:
@@ -664,7 +664,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 if event == 'start' and element.tag == 'eigenvelocities':
                     extract_eigenvelocities = True
                 if event == 'end' and element.tag == 'eigenvelocities':
-                    num_kpoints = len(self._data['kpoints'])
+                    num_kpoints = self._get_num_kpoints(self._data['kpoints'])
                     if not data2:
                         eigenvelocities = self._extract_eigenvelocities(data, None, num_kpoints)
                     else:
@@ -1767,7 +1767,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry_ispin1 is None:
             return None, None
 
-        eigenvalues, occupancies = self._extract_eigenvalues(entry_ispin1, entry_ispin2, len(self._lattice['kpoints']))
+        eigenvalues, occupancies = self._extract_eigenvalues(entry_ispin1, entry_ispin2, self._get_num_kpoints(self._lattice['kpoints']))
 
         return eigenvalues, occupancies
 
@@ -1817,7 +1817,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry_ispin1 is None:
             return None
 
-        eigenvalues, _ = self._extract_eigenvalues(entry_ispin1, entry_ispin2, len(self._data['kpoints']))
+        eigenvalues, _ = self._extract_eigenvalues(entry_ispin1, entry_ispin2, self._get_num_kpoints(self._data['kpoints']))
 
         return eigenvalues
 
@@ -1870,7 +1870,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             'kpoints/varray[@name="weights"]/v'
         )
 
-        eigenvelocities = self._extract_eigenvelocities(entry_ispin1, entry_ispin2, len(self._data['kpoints']))
+        eigenvelocities = self._extract_eigenvelocities(entry_ispin1, entry_ispin2, self._get_num_kpoints(self._data['kpoints']))
 
         return eigenvelocities
 
@@ -2307,6 +2307,27 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         #         diel_real.append([float(x) for x in energy.text.split()])
         #     return diel_imag, diel_real
 
+    def _get_num_kpoints(self, kpoints):
+        """
+        Get the number of k-points, which has to be known to divide the eigenvalues.
+
+        Parameters
+        ----------
+        kpoints : ndarray
+            The k-points, None if there are none.
+
+        Returns
+        -------
+        num_kpoints : int
+            The number of k-points.
+
+        """
+        if kpoints is None:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_KPOINTS])
+            sys.exit(self.ERROR_NO_KPOINTS)
+
+        return len(kpoints)
+
     def _extract_eigenvalues(self, spin1, spin2, num_kpoints):
         """
         Extract the eigenvalues.
-- 
2.43.0


From 4ef0f7b1bb1cdc18649a8e25efe97aa6f6abe4ea Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 73/93] fix: find the weights of the interpolated k-points in
 vasprun.xml with paths that are relative, as future versions demand

---
 parsevasp/vasprun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index a6ee2d4..3460420 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1809,7 +1809,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             )
 
             self._data['kpointsw'] = self._fetch_kpointsww(
-                xml, path='//calculation/eigenvalues/'
+                xml, path='.//calculation/eigenvalues/'
                 'kpoints/varray[@name="weights"]/v'
             )
 
@@ -1866,7 +1866,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         )
 
         self._data['kpointsw'] = self._fetch_kpointsww(
-            xml, path='//calculation/eigenvelocities/'
+            xml, path='.//calculation/eigenvelocities/'
             'kpoints/varray[@name="weights"]/v'
         )
 
-- 
2.43.0


From 0b81d6c7cb15326384736ceef81844280f988771 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:56 +0000
Subject: [PATCH 74/93] fix: report the number of a point of KPOINTS without
 points as too large, as documented

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 84756b9..1f4cb9a 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -527,7 +527,7 @@ class Kpoints(BaseParser):
             )
             sys.exit(self.ERROR_KEY_INVALID_TYPE)
         points = self.entries['points']
-        if point_number > (len(points) - 1):
+        if points is None or point_number > (len(points) - 1):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_TOO_LARGE_POINT_INDEX])
             sys.exit(self.ERROR_TOO_LARGE_POINT_INDEX)
 
-- 
2.43.0


From a9fdcfc98ed54aac08bf33f70413c93a602f6ff3 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 75/93] fix: recognize a VASP 4 POSCAR also when the numbers of
 atoms are padded with blanks

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 4ccf6c2..28954ec 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -209,7 +209,7 @@ class Poscar(BaseParser):
         comment = poscar[0].replace('#', '').strip()
         vasp5 = True
         # Check for VASP 5 POSCAR
-        if utils.is_numbers(poscar[5]):
+        if utils.is_numbers(' '.join(poscar[5].split())):
             vasp5 = False
         # Set direct, test is done later
         direct = True
-- 
2.43.0


From 7728073933d59fda53965613766a7d1b86b8bd97 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:25 +0000
Subject: [PATCH 76/93] fix: report a unit cell of the wrong shape with the
 documented error also when sites are Cartesian

---
 parsevasp/poscar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 28954ec..e90396d 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -145,7 +145,8 @@ class Poscar(BaseParser):
 
         if (
             not isinstance(self._poscar_dict.get('sites'), list) or
-            not isinstance(self._poscar_dict.get('unitcell'), np.ndarray)
+            not isinstance(self._poscar_dict.get('unitcell'), np.ndarray) or
+            self._poscar_dict['unitcell'].shape != (3, 3)
         ):
             # Reported when validating
             return
-- 
2.43.0


From 8659080b8aff0861ea070d97b7ecc3b178339488 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 77/93] fix: read a CHGCAR where the moments of the ions follow
 a grid without augmentation occupancies

---
 parsevasp/chgcar.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 8310d58..d9e39ed 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -88,26 +88,28 @@ class Chgcar(BaseParser):
         # Check how many datasets we have
         content = content.split(ngf_string)
         num_datasets = len(content)
+        # The grid comes first, augmentation occupancies and the moments of the ions of the next dataset might follow
+        num_points = np.prod(ngf)
         # First dataset is always there
         self._data['total'] = np.fromstring(content[0].split('augmentation occupancies')[0], dtype=float,
-                                            sep=' ').reshape(ngf) / volume
+                                            sep=' ')[:num_points].reshape(ngf) / volume
         if num_datasets == 2:
             # Collinear spin
             self._data['magnetization'] = np.fromstring(
                 content[1].split('augmentation occupancies')[0], dtype=float, sep=' '
-            ).reshape(ngf) / volume
+            )[:num_points].reshape(ngf) / volume
         elif num_datasets == 4:
             # Non-collinear spin
             self._data['magnetization'] = {}
             self._data['magnetization']['x'] = np.fromstring(
                 content[1].split('augmentation occupancies')[0], dtype=float, sep=' '
-            ).reshape(ngf) / volume
+            )[:num_points].reshape(ngf) / volume
             self._data['magnetization']['y'] = np.fromstring(
                 content[2].split('augmentation occupancies')[0], dtype=float, sep=' '
-            ).reshape(ngf) / volume
+            )[:num_points].reshape(ngf) / volume
             self._data['magnetization']['z'] = np.fromstring(
                 content[3].split('augmentation occupancies')[0], dtype=float, sep=' '
-            ).reshape(ngf) / volume
+            )[:num_points].reshape(ngf) / volume
 
     @property
     def charge_density(self):
-- 
2.43.0


From dac9e99c7571aeffd5b4bfe48095826136715583 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:15 +0000
Subject: [PATCH 78/93] fix: do not read a number from a CHGCAR that ends where
 its grid should start

---
 parsevasp/chgcar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index d9e39ed..13c2b06 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -86,7 +86,8 @@ class Chgcar(BaseParser):
         # to comply with z fastest (C order).
         ngf.reverse()
         # Check how many datasets we have
-        content = content.split(ngf_string)
+        # Nothing but white space would be read as a number by fromstring
+        content = [dataset.lstrip() for dataset in content.split(ngf_string)]
         num_datasets = len(content)
         # The grid comes first, augmentation occupancies and the moments of the ions of the next dataset might follow
         num_points = np.prod(ngf)
-- 
2.43.0


From cc92b3261f1f1e651564c35d090b951144d50d17 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 79/93] fix: read the Hessian and dynamical matrix in
 vasprun.xml also when selective dynamics leaves fewer degrees of freedom

---
 parsevasp/vasprun.py | 46 +++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 3460420..d6e5531 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -946,13 +946,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         extract_hessian = True
                     if event == 'end' and element.tag == 'varray' \
                        and element.attrib.get('name') == 'hessian':
-                        num_atoms = 0
-                        if self._lattice['species'] is not None:
-                            num_atoms = self._lattice['species'].shape[0]
-                        else:
+                        if self._lattice['species'] is None:
                             self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                             sys.exit(self.ERROR_NO_SPECIES)
-                        hessian = self._convert_array2D_f(data, num_atoms * 3)
+                        hessian = self._convert_array2D_f(data, self._get_num_columns(data))
                         self._data['hessian'] = hessian
                         data = []
                         extract_hessian = False
@@ -961,13 +958,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         extract_dynmat_eigen = True
                     if event == 'end' and element.tag == 'varray' \
                        and element.attrib.get('name') == 'eigenvectors':
-                        num_atoms = 0
-                        if self._lattice['species'] is not None:
-                            num_atoms = self._lattice['species'].shape[0]
-                        else:
+                        if self._lattice['species'] is None:
                             self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                             sys.exit(self.ERROR_NO_SPECIES)
-                        eigenvec = self._convert_array2D_f(data, num_atoms * 3)
+                        eigenvec = self._convert_array2D_f(data, self._get_num_columns(data))
                         dynmat['eigenvectors'] = eigenvec
                         data = []
                         extract_dynmat_eigen = False
@@ -1605,9 +1599,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             species = self._fetch_speciesw(xml)
             if species is None:
                 return None
-        num_atoms = species.shape[0]
 
-        hessian = self._convert_array2D_f(entry, num_atoms * 3)
+        hessian = self._convert_array2D_f(entry, self._get_num_columns(entry))
 
         return hessian
 
@@ -1640,7 +1633,6 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             species = self._fetch_speciesw(xml)
             if species is None:
                 return None
-        num_atoms = species.shape[0]
 
         eigenvalues = self._convert_array_f(entry)
 
@@ -1650,7 +1642,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry is None:
             return None
 
-        eigenvectors = self._convert_array2D_f(entry, num_atoms * 3)
+        eigenvectors = self._convert_array2D_f(entry, len(eigenvalues))
 
         dynmat = {'eigenvalues': eigenvalues, 'eigenvectors': eigenvectors}
 
@@ -2605,6 +2597,29 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         return np.fromstring(text, sep=' ', dtype=dtype)
 
+    def _get_num_columns(self, entries):
+        """
+        Get the number of columns of the input entries.
+
+        The number of rows and columns of e.g. the Hessian is three times the number of atoms, but
+        less than that for selective dynamics.
+
+        Parameters
+        ----------
+        entries : list
+            A list containing Element objects, where each contains the numbers of one row.
+
+        Returns
+        -------
+        num_columns : int
+            The number of columns in the first row.
+
+        """
+        if not len(entries):
+            return 0
+
+        return len(self._convert_text(entries[0]))
+
     def _convert_array_i(self, entry):
         """
         Convert the input entry to numpy array.
@@ -2891,7 +2906,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         Returns
         -------
         hessian : ndarray
-            A NumPy array that has a dimension of three times number of atoms squared.
+            A NumPy array that has a dimension of three times number of atoms squared. With selective
+            dynamics, the dimension is the number of degrees of freedom that are left.
 
         """
         hessian = self._data['hessian']
-- 
2.43.0


From 75f73752b395ef9793850b4b9199cdb6a01c6e94 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:50 +0000
Subject: [PATCH 80/93] fix: do not mix the entries for the k-points of
 KPOINTS_OPT with the regular ones when parsing vasprun.xml in events

---
 parsevasp/vasprun.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index d6e5531..1fae380 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -346,6 +346,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         extract_dynmat_eigen = False
         extract_hessian = False
         extract_born = False
+        skip_kpoints_opt = False
 
         # Do we want to extract data from all calculations (e.g. ionic steps)
         # extract_all = self._extract_all
@@ -365,6 +366,11 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 parents.append(element)
             else:
                 parents.pop()
+            # What is given for the k-points of KPOINTS_OPT has the same elements, do not mix them
+            if element.tag in ('eigenvalues_kpoints_opt', 'projected_kpoints_opt'):
+                skip_kpoints_opt = event == 'start'
+            if skip_kpoints_opt:
+                continue
             # Set extraction points (what to read and when to read it)
             # here we also set the relevant data elements when the tags
             # close when they contain more than one element
-- 
2.43.0


From 7f5ff3d01647243b8d2bab5a9b5924e9f210b2da Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 81/93] fix: do not read a number from a blank entry of
 vasprun.xml

---
 parsevasp/vasprun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 1fae380..3e7bff6 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2596,7 +2596,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        text = entry.text or ''
+        # Nothing but white space would be read as a number by fromstring
+        text = (entry.text or '').strip()
         if '*' in text:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
             sys.exit(self.ERROR_OVERFLOW)
-- 
2.43.0


From 6b362e31bbbbd5aabe1dcc3a42e2f620ecf1a0dc Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:34 +0000
Subject: [PATCH 82/93] fix: drop the blank lines at the end of POSCAR in one
 go

---
 parsevasp/poscar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index e90396d..aabf067 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -205,8 +205,10 @@ class Poscar(BaseParser):
         """
 
         # Blank lines at the end carry no content
-        while poscar and not poscar[-1].strip():
-            poscar = poscar[:-1]
+        last = len(poscar)
+        while last and not poscar[last - 1].strip():
+            last = last - 1
+        poscar = poscar[:last]
         comment = poscar[0].replace('#', '').strip()
         vasp5 = True
         # Check for VASP 5 POSCAR
-- 
2.43.0


From ac5091df76c491db4caaa5f8cc02e88d43f23c99 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 83/93] fix: give the energies of steps without electronic
 steps, in both modes of parsing

---
 parsevasp/vasprun.py | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 3e7bff6..b676672 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1086,20 +1086,12 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         else:
             dielectrics = None
 
-        # Check totens for entries, if all arrays empty and no float detected set force totens to None
-        found_totens = False
+        # As when the whole file is parsed, all the calculations need to have the final energies
+        found_totens = bool(totens)
         for energies in totens.values():
-            for value in energies.values():
-                try:
-                    if value.size != 0:
-                        # Fails if there is a float for value and if there is a float, there is a value, so
-                        # protected by try block, or we have entries for the array values.
-                        found_totens = True
-                        break
-                except AttributeError:
-                    found_totens = True
-            if found_totens:
-                break
+            for key in _SUPPORTED_TOTAL_ENERGIES:
+                if key + '_final' not in energies:
+                    found_totens = False
 
         if not found_totens:
             totens = None
@@ -1941,9 +1933,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         for index, calc in enumerate(entries):
             energies_pr_calc = {}
             for supported_energy, supported_key in _SUPPORTED_TOTAL_ENERGIES.items():
-                data = self._findall(calc, './/scstep/energy/i[@name="' + supported_key + '"]')
-                if data is None:
-                    return None
+                # There are no electronic steps if e.g. the forces are predicted by a machine learned force field
+                data = self._findall(calc, './/scstep/energy/i[@name="' + supported_key + '"]') or []
                 data = self._convert_array1D_f(data)
                 energies_pr_calc[supported_energy] = data
 
@@ -3187,7 +3178,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             electronic steps, the array can be staggered. Instead of dealing with staggered
             arrays, the array is flattened and an index array, `electronic_steps` is provided
             to describe how many elextronic steps was performed for each ionic.
-            If `nosc` is set to `True` the `electronic_steps` only contain `1` as its elements.
+            If `nosc` is set to `True` the `electronic_steps` only contain `1` as its elements, or
+            `0` for ionic steps without electronic steps.
             The NumPy array for `etype` is the energy in the self consistent electronic
             cycle and has its ionic step as the first index, while the second index contains
             the electronic step. Index for `etype_final` is simplified as this energy
@@ -3242,7 +3234,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             electronic steps, the array can be staggered. Instead of dealing with staggered
             arrays, the array is flattened and an index array, `electronic_steps` is provided
             to describe how many elextronic steps was performed for each ionic.
-            If `nosc` is set to `True` the `electronic_steps` only contain `1` as its elements.
+            If `nosc` is set to `True` the `electronic_steps` only contain `1` as its elements, or
+            `0` for ionic steps without electronic steps.
             The NumPy array for `etype` is the energy in the self consistent electronic
             cycle and has its ionic step as the first index, while the second index contains
             the electronic step. Index for `etype_final` is simplified as this energy
@@ -3274,15 +3267,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # of the electronic steps and applying corrections.
             energy_per_etype = np.array([])
             electronic_steps = np.array([], dtype=int)
-            steps = 1
             if status == 'initial':
                 # Initial ionic step
                 energy_per_etype = np.append(energy_per_etype, energies_from_xml[1][item + '_final'])
                 if nosc:
-                    energies_at_item = energies_from_xml[1][item][-1]
+                    energies_at_item = energies_from_xml[1][item][-1:]
                 else:
                     energies_at_item = energies_from_xml[1][item]
-                    steps = len(energies_at_item)
+                steps = len(energies_at_item)
                 energies_per_etype = np.append(energies_per_etype, energies_at_item)
                 electronic_steps = np.append(electronic_steps, steps)
             elif status == 'last':
@@ -3290,10 +3282,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 largest_key = max(energies_from_xml.keys())
                 energy_per_etype = np.append(energy_per_etype, energies_from_xml[largest_key][item + '_final'])
                 if nosc:
-                    energies_at_item = energies_from_xml[largest_key][item][-1]
+                    energies_at_item = energies_from_xml[largest_key][item][-1:]
                 else:
                     energies_at_item = energies_from_xml[largest_key][item]
-                    steps = len(energies_at_item)
+                steps = len(energies_at_item)
                 energies_per_etype = np.append(energies_per_etype, energies_at_item)
                 electronic_steps = np.append(electronic_steps, steps)
             elif status == 'all':
@@ -3310,10 +3302,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     # Then fetch the energies for the electronic steps and how many
                     # steps was performed
                     if nosc:
-                        energies_at_item = element[item][-1]
+                        energies_at_item = element[item][-1:]
                     else:
                         energies_at_item = element[item]
-                        steps = len(energies_at_item)
+                    steps = len(energies_at_item)
                     # Set the energy for all or just the last electronic step, in
                     # addition to the electronic steps for this ionic step
                     energies_per_etype = np.append(energies_per_etype, energies_at_item)
-- 
2.43.0


From cb5453faff51e67347fec7550c2be0b918ad0638 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:58 +0000
Subject: [PATCH 84/93] fix: read NaN and infinity in INCAR as the floats they
 are, instead of failing to make integers of them

---
 parsevasp/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 6c8e61f..9250b55 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -162,11 +162,10 @@ def test_string_content(string):
     """
     try:
         float(string)
-        return 'int' if ((string.count('.') == 0) and \
-                         ('e' not in string) and \
-                         ('E' not in string)) else 'float'
     except ValueError:
         return 'string'
+    # NaN, infinity and their like are numbers, but no integers
+    return 'int' if re.match(r'\s*[-+]?[\d_]+\s*$', string) else 'float'
 
 
 def is_numbers(string, splitter=' '):
-- 
2.43.0


From 89590428b2bdc3c2d9fdc9dc90722e49e8b5c940 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:42 +0000
Subject: [PATCH 85/93] fix: return each line with one of the identifiers once,
 also when a single string is the identifier

---
 parsevasp/utils.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 9250b55..43855e6 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -71,12 +71,11 @@ def read_from_file(file_name, input_file_handler, contains=None, lines=True, enc
         # now
         for _, line in enumerate(file_data):
             if is_list:
-                for element in contains:
-                    if element in line:
-                        parsed.append(line)
+                if any(element in line for element in contains):
+                    parsed.append(line)
             else:
                 if contains in line:
-                    parsed = line
+                    parsed.append(line)
     else:
         parsed = file_data
 
@@ -136,11 +135,10 @@ def is_sequence(arg):
 
     """
 
-    if not hasattr(arg, 'strip') and hasattr(arg, '__getitem__'):
-        return True
-    if hasattr(arg, '__iter__'):
-        return True
-    return False
+    if hasattr(arg, 'strip'):
+        # A string, which one can iterate over as well
+        return False
+    return hasattr(arg, '__getitem__') or hasattr(arg, '__iter__')
 
 
 def test_string_content(string):
-- 
2.43.0


From 148735f7dd7b275aef32273e8335e793b1ee81ec Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:31 +0000
Subject: [PATCH 86/93] fix: read numbers with positive exponents, and titles
 with more than one blank, from POTCAR

---
 parsevasp/potcar.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 48969ae..f2bab30 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -113,21 +113,21 @@ class Potcar(BaseParser):
             'IUNSCR': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
             'NDATA': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
             'ICORE': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
-            'EATOM': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RPACOR': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'POMASS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ZVAL': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RCORE': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RWIGS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ENMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ENMIN': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RCLOC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'EAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'DEXC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RDEP': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RDEPT': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
+            'EATOM': lambda val: float(re.search(r'^-?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'RPACOR': lambda val: float(re.search(r'^-?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'POMASS': lambda val: float(re.search(r'^-?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'ZVAL': lambda val: float(re.search(r'^-?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'RCORE': lambda val: float(re.search(r'^-?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'RWIGS': lambda val: float(re.search(r'^-?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'ENMAX': lambda val: float(re.search(r'^-?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'ENMIN': lambda val: float(re.search(r'^-?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'RCLOC': lambda val: float(re.search(r'^-?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'EAUG': lambda val: float(re.search(r'^-?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'DEXC': lambda val: float(re.search(r'^-?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'RMAX': lambda val: float(re.search(r'^-?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'RAUG': lambda val: float(re.search(r'^-?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'RDEP': lambda val: float(re.search(r'^-?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'RDEPT': lambda val: float(re.search(r'^-?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
             'STEP': lambda val: [float(y) for y in re.split(r'\s+', val.strip()) if not y.isalpha()],
         }
         search_lines = re.search(
@@ -142,7 +142,7 @@ class Potcar(BaseParser):
                 self.metadata[key] = _parameters_to_parse[key](val)
 
         try:
-            self._symbol = self.metadata['TITEL'].split(' ')[1].strip()
+            self._symbol = self.metadata['TITEL'].split()[1]
         except IndexError:
             self._symbol = self.metadata['TITEL'].strip()
 
-- 
2.43.0


From 66b64c030e0cd7f39bb37844a0da3321c0ce7a14 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:16 +0000
Subject: [PATCH 87/93] fix: read DOSCAR with 1000 ions or 10000 points and
 more, whose header has no blanks between the numbers

---
 parsevasp/doscar.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 34a36a5..8329f7b 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -1,4 +1,5 @@
 """Handle DOSCAR."""
+import re
 import sys
 
 import numpy as np
@@ -171,7 +172,11 @@ class Doscar(BaseParser):
         """
 
         # Set some metadata
-        num_ions, num_atoms, part, ncdij = utils.line_to_type(doscar[0], int)  # pylint: disable=W0612
+        counts = doscar[0].rstrip()
+        if len(counts.split()) < 4:
+            # The columns are four digits wide, so 1000 ions and more run into each other
+            counts = ' '.join(counts[i:i + 4] for i in range(0, len(counts), 4))
+        num_ions, num_atoms, part, ncdij = utils.line_to_type(counts, int)  # pylint: disable=W0612
 
         # Figure out if we have a partial density of states
         # partial = bool(int(part))
@@ -189,12 +194,18 @@ class Doscar(BaseParser):
         system = utils.line_to_type(doscar[4], no_split=True)
 
         # Energy min, energy max, number of points between, fermi level, weight
-        line_2 = utils.line_to_type(doscar[5], float)
+        header = doscar[5]
+        if len(header.split()) == 4:
+            # There is only room for five digits, so 10000 points and more run into the energy in front
+            header = re.sub(r'(\.\d{8})(?=\d{5}\s)', r'\1 ', header)
+        line_2 = utils.line_to_type(header, float)
         emax, emin, ndos, efermi, weight = line_2
         ndos = int(ndos)
 
         # The rest of the file is density of states data, convert to float
-        data = [utils.line_to_type(line, d_type=utils.fortran_float) for line in doscar[6:]]
+        data = [
+            utils.line_to_type(header if line == doscar[5] else line, d_type=utils.fortran_float) for line in doscar[6:]
+        ]
 
         # Get the number of columns for the total dos section to figure out
         # if data is spin decomposed
-- 
2.43.0


From 5081d0dcfd377484231017631c327687638720d9 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:21 +0000
Subject: [PATCH 88/93] fix: accept KPOINTS with comments behind the divisions,
 shifts and generating vectors, as those behind the points

---
 parsevasp/kpoints.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 1f4cb9a..11fe3a8 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -236,15 +236,15 @@ class Kpoints(BaseParser):
                     centering = 'Gamma'
                 else:
                     centering = 'Monkhorst-Pack'
-                divisions = [int(element) for element in kpoints[3].split()]
+                divisions = [int(element) for element in kpoints[3].split()[:3]]
                 if len(kpoints) > 4:
-                    shifts = [float(element) for element in kpoints[4].split()]
+                    shifts = [float(element) for element in kpoints[4].split()[:3]]
             elif third_line_char == 'r':
                 centering = 'Reciprocal'
                 generating_vectors = []
                 for line_no in range(3, 6):
-                    generating_vectors.append([float(element) for element in kpoints[line_no].split()])
-                shifts = [float(element) for element in kpoints[6].split()]
+                    generating_vectors.append([float(element) for element in kpoints[line_no].split()[:3]])
+                shifts = [float(element) for element in kpoints[6].split()[:3]]
             elif third_line_char in ('d', 'c'):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_EXPERT])
                 sys.exit(self.ERROR_NO_EXPERT)
-- 
2.43.0


From d0b2b135b04f1f8d20bc194c6ea4a97a1cec3fc0 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:21 +0000
Subject: [PATCH 89/93] fix: read POSCAR coordinates as cartesian only if their
 header starts with C or K, leave leading blanks of the headers and comments
 behind the cell aside

---
 parsevasp/poscar.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index aabf067..568f6e0 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -230,9 +230,9 @@ class Poscar(BaseParser):
         if vasp5:
             # Could go straight to numpy with fromstring, consider
             # to change in the future
-            unitcell[0] = [float(x) for x in poscar[2].split()]
-            unitcell[1] = [float(x) for x in poscar[3].split()]
-            unitcell[2] = [float(x) for x in poscar[4].split()]
+            unitcell[0] = [float(x) for x in poscar[2].split()[:3]]
+            unitcell[1] = [float(x) for x in poscar[3].split()[:3]]
+            unitcell[2] = [float(x) for x in poscar[4].split()[:3]]
             unitcell = np.asarray(unitcell)
             # Apply scaling factor
             unitcell = scaling * unitcell
@@ -240,14 +240,12 @@ class Poscar(BaseParser):
             atoms = [int(x) for x in poscar[6].split()]
             for num_ions in atoms:
                 nions = nions + num_ions
-            if poscar[7][0].lower() == 's':
+            if poscar[7].strip()[:1].lower() == 's':
                 selective = True
                 loopmax = 9
-                if not poscar[8][0].lower() == 'd':
-                    direct = False
-            if not selective:
-                if not poscar[7][0].lower() == 'd':
-                    direct = False
+            # Only what starts with a C or K is cartesian, as for VASP
+            if poscar[loopmax - 1].strip()[:1].lower() in ('c', 'k'):
+                direct = False
         else:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_VASPFOUR])
             sys.exit(self.ERROR_VASPFOUR)
@@ -296,8 +294,8 @@ class Poscar(BaseParser):
         # Now check if there is more in the POSCAR
         loopmax_pos = nions + loopmax
         if len(poscar) > loopmax_pos:
-            first_char = poscar[loopmax_pos][0].lower()
-            if first_char in ('d', 'c'):
+            first_char = poscar[loopmax_pos].strip()[:1].lower()
+            if first_char in ('d', 'c', 'k'):
                 velocities = True
                 # Make sure we convert velocities to direct if they are cartesian, and
                 # only then, the positions could be given differently
-- 
2.43.0


From 4ef02523e30190ca48bb38f5ba08d013899bd503 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 90/93] fix: read explicit KPOINTS with a blank line and text
 behind the points, instead of failing

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 11fe3a8..9f103ad 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -211,7 +211,7 @@ class Kpoints(BaseParser):
                 points.append(Kpoint(point, weight, direct=direct))
             loopmax = num_kpoints + loopmax
             if len(kpoints) > loopmax:
-                if kpoints[loopmax].strip()[0].lower() == 't':
+                if kpoints[loopmax].strip()[:1].lower() == 't':
                     # Tetrahedron info present
                     tetra = []
                     loopmax = loopmax + 1
-- 
2.43.0


From a414debeeb7098de47e108d10d360e32d30f6792 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:37 +0000
Subject: [PATCH 91/93] fix: read totals of magnetic moments in OUTCAR that
 have no blank between them

---
 parsevasp/outcar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index b1c78d3..8d733a2 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -205,7 +205,8 @@ class Outcar(BaseParser):
                                     mag_line[0]
                                 )]['tot'] = float(mag_line[-1])
                             if outcar[index + 4 + _counter].strip().startswith('tot'):
-                                mag_line = outcar[index + 4 + _counter].split()
+                                # There can be no blank in front of negative totals of three digits
+                                mag_line = outcar[index + 4 + _counter].replace('-', ' -').split()
                                 self._data['magnetization']['sphere'][f'{_proj}']['total_magnetization'] = {}
                                 for _count, orb in enumerate(mag_line[1:-1]):
                                     self._data['magnetization']['sphere'][f'{_proj}']['total_magnetization'][
-- 
2.43.0


From ec4b1cb1f529462c7da9c9b867d3ebb2a431f285 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:52 +0000
Subject: [PATCH 92/93] fix: decode XML files handed over in text mode as they
 declare, also when not parsed in events

---
 parsevasp/vasprun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index b676672..075f0ac 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -217,7 +217,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if self._file_handler is None:
             filer = self._file_path
         else:
-            filer = self._file_handler
+            # The encoding is the one the file declares, also when the handler was opened in text mode
+            filer = getattr(self._file_handler, 'buffer', self._file_handler)
 
         # Make sure we enable the recovery mode
         # pretty sure there is a performance bottleneck running this
-- 
2.43.0


From 1f1fddc2ea0b8581ddc6ab32a37c932c314c6beb Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:52 +0000
Subject: [PATCH 93/93] fix: look at the end of XML files in text mode without
 decoding it from inside of a character

---
 parsevasp/vasprun.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 075f0ac..e6cd4a1 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -3640,8 +3640,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         # always on a file system.
         shift = max(self._file_size - 1024, 0)
         if self._file_handler is not None:
-            self._file_handler.seek(shift)
-            tail = self._file_handler.read()
+            # In text mode, the position could be inside of a character
+            handler = getattr(self._file_handler, 'buffer', self._file_handler)
+            handler.seek(shift)
+            tail = handler.read()
             # Reset pointer
             self._file_handler.seek(0)
             if isinstance(tail, str):
-- 
2.43.0

