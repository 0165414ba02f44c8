From 03a63459920df3c8eb33ef8ea5470967ec4cff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 01/28] fix: report binary data-sets in get_set_formats

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 32961f4..4c6bb1b 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -227,7 +227,7 @@ class UFF:
                     try:
                         block_data = data[si:ei + 1].splitlines()
                         self._set_types[ii] = int(block_data[1][0:6])
-                        if block_data[1][6].lower() == 'b':
+                        if block_data[1][6:7].lower() == b'b':
                             self._set_formats[ii] = 1
                     except:
                         # Some non-valid blocks found; ignore the exception
-- 
2.43.0


From db3ef57134fab4d99ff528c0eb575ac23c1f3f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 02/28] fix: forget the previous file content when a refresh
 finds no data-sets

---
 pyuff/pyuff.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 4c6bb1b..973a3b8 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -169,6 +169,10 @@ class UFF:
         True otherwise.
         """
         self._refreshed = False
+        self._block_ind = []
+        self._n_sets = 0
+        self._set_types = np.array(())
+        self._set_formats = np.array(())
         if not self.file_exists():
             return False  # cannot read the file if it does not exist
         try:
-- 
2.43.0


From 3ca5718744c82f425116b61d9cd7037e70fedda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 03/28] fix: count the sets to read after the automatic refresh

---
 pyuff/pyuff.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 973a3b8..2b34fc2 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -261,6 +261,11 @@ class UFF:
                      This usefull for large files.         
         """
         dset = []
+        if not self.file_exists():
+            raise Exception('Cannot read from a non-existing file: ' + self._filename)
+        if not self._refreshed:
+            if not self.refresh():
+                raise Exception('Cannot read from the file: ' + self._filename)
         if setn is None:
             read_range = range(0, self._n_sets)
         else:
@@ -268,11 +273,6 @@ class UFF:
                 read_range = [setn]
             else:
                 read_range = setn
-        if not self.file_exists():
-            raise Exception('Cannot read from a non-existing file: ' + self._filename)
-        if not self._refreshed:
-            if not self.refresh():
-                raise Exception('Cannot read from the file: ' + self._filename)
         try:
             for ii in read_range:
                 dset.append(self._read_set(ii, header_only=header_only))
-- 
2.43.0


From 5c5a9165e5e5126c280a2bd0ea7065c451fb83b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 04/28] fix: accept a blank-padded tag that ends the file

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 2b34fc2..8641dc6 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -198,7 +198,7 @@ class UFF:
                     elif ind+6 < data_len and data[ind+6] in [10, 13]:
                         block_ind.append(ind)
                     # Check the line continues with blanks up to character 80
-                    elif ind+80 < data_len and data[ind+6:ind+80] == \
+                    elif ind+80 <= data_len and data[ind+6:ind+80] == \
                         b'                                                                          ':
                         block_ind.append(ind)
                     
-- 
2.43.0


From 320f56990b0ef75b4d86d203b6da203443c9e60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 05/28] fix: do not glue an added data-set to an unterminated
 last line

---
 pyuff/pyuff.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 8641dc6..31d62e7 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -429,7 +429,14 @@ class UFF:
         elif mode.lower() == 'add':
             # add (append) mode
             try:
+                unterminated = False
+                if self.file_exists():
+                    with open(self._filename, 'rb') as fh:
+                        unterminated = fh.read()[-1:] not in (b'', b'\n', b'\r')
                 fh = open(self._filename, 'at', encoding='utf-8')
+                if unterminated:
+                    # keep the new start tag on a line of its own
+                    fh.write('\n')
             except:
                 raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
         else:
-- 
2.43.0


From 31b66ea57015b45cb66c85270837f103270d2da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 06/28] fix: keep the header and data of a binary data-set 58
 written in overwrite mode

---
 pyuff/datasets/dataset_58.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 3d48c82..6935109 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -961,20 +961,14 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
         # always write data in double precision
         if dset['binary']:
             fh.close()
-            if mode.lower() == 'overwrite':
-                fh = open(_filename, 'wb')
-            elif mode.lower() == 'add':
-                fh = open(_filename, 'ab')
+            fh = open(_filename, 'ab')
             # write data
             if bo == 1:
                 [fh.write(struct.pack('<d', datai)) for datai in data]
             else:
                 [fh.write(struct.pack('>d', datai)) for datai in data]
             fh.close()
-            if mode.lower() == 'overwrite':
-                fh = open(_filename, 'wt', encoding='utf-8')
-            elif mode.lower() == 'add':
-                fh = open(_filename, 'at', encoding='utf-8')
+            fh = open(_filename, 'at', encoding='utf-8')
         else:
             if is_double: # write double precision
                 n4_blocks = len(data) // 4
-- 
2.43.0


From f1bb66c20c4bb5322986e34a2e90636eda42fc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 07/28] fix: write single precision binary data-set 58 as
 4-byte values

---
 pyuff/datasets/dataset_58.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 6935109..24100d5 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -963,10 +963,11 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
             fh.close()
             fh = open(_filename, 'ab')
             # write data
+            fp = 'd' if is_double else 'f'
             if bo == 1:
-                [fh.write(struct.pack('<d', datai)) for datai in data]
+                [fh.write(struct.pack('<' + fp, datai)) for datai in data]
             else:
-                [fh.write(struct.pack('>d', datai)) for datai in data]
+                [fh.write(struct.pack('>' + fp, datai)) for datai in data]
             fh.close()
             fh = open(_filename, 'at', encoding='utf-8')
         else:
-- 
2.43.0


From a2294583cab83a1e88a4102b00dc8233dfa24973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 08/28] fix: announce the real number of data bytes of a binary
 data-set 58

---
 pyuff/datasets/dataset_58.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 24100d5..2a85b77 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -886,12 +886,14 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
             if force_double:
                 dset['ord_data_type'] = 6
 
+        # values stored per point: the ordinate (one or two values) and, if uneven, the abscissa
+        n_vals = num_pts * ((1 if is_r else 2) + (0 if dset['abscissa_spacing'] else 1))
         if dset['ord_data_type'] in [4, 6]: # double precision
             is_double = True
-            n_bytes = num_pts * 8
+            n_bytes = n_vals * 8
         elif dset['ord_data_type'] in [2, 5]: # sigle precision
             is_double = False
-            n_bytes = num_pts * 4
+            n_bytes = n_vals * 4
 
         if 'n_bytes' in dset.keys():
             dset['n_bytes'] = n_bytes
-- 
2.43.0


From 8f9249b5e98f231ada33ec77a450702a3fed04be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 09/28] fix: write all the nodes of a data-set 82 with repeated
 nodes

---
 pyuff/datasets/dataset_82.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_82.py b/pyuff/datasets/dataset_82.py
index 4e0459a..d6170cf 100644
--- a/pyuff/datasets/dataset_82.py
+++ b/pyuff/datasets/dataset_82.py
@@ -59,8 +59,8 @@ def _write82(fh, dset):
         fh.write('%10i%10i%10i\n' % (dset['trace_num'], n_nodes, dset['color']))
         fh.write('%-80s\n' % dset['id'])
         sl = 0
-        n8_blocks = n_nodes // 8
-        rem_lines = n_nodes % 8
+        n8_blocks = len(dset['nodes']) // 8
+        rem_lines = len(dset['nodes']) % 8
         if n8_blocks:
             for ii in range(0, n8_blocks):
                 #                 fh.write( string.join(['%10i'%line_n for line_n in dset['lines'][sl:sl+8]],'')+'\n' )
-- 
2.43.0


From ad869c2dae4ba458bcd45a9fc977224fe3dd212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 10/28] fix: write the date and time given to prepare_151 as
 date and time written

---
 pyuff/datasets/dataset_151.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_151.py b/pyuff/datasets/dataset_151.py
index 2cec823..1ae60e9 100644
--- a/pyuff/datasets/dataset_151.py
+++ b/pyuff/datasets/dataset_151.py
@@ -57,8 +57,8 @@ def _write151(fh, dset):
                                         'time_db_created': ts,
                                         'date_db_saved': ds,
                                         'time_db_saved': ts,
-                                        'date_file_written': ds,
-                                        'time_file_written': ts})
+                                        'date_file_written': dset.get('date_db_written', ds),
+                                        'time_file_written': dset.get('time_db_written', ts)})
         # write strings to the file
         fh.write('%6i\n%6i%74s\n' % (-1, 151, ' '))
         fh.write('%-80s\n' % dset['model_name'])
-- 
2.43.0


From 6db2654b380d150f61498d4ae31abdd46d7c5856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 11/28] fix: write record 1 of data-set 1858 in the 12-column
 fields it is read with

---
 pyuff/datasets/dataset_1858.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_1858.py b/pyuff/datasets/dataset_1858.py
index ed7a475..1017d81 100644
--- a/pyuff/datasets/dataset_1858.py
+++ b/pyuff/datasets/dataset_1858.py
@@ -112,7 +112,7 @@ def _write1858(fh, dset):
         dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i%74s\n' % (-1, 1858, ' '))
 
-        fh.write('%10i%10i%10i%10i%10i%10i\n' % (
+        fh.write('%12i%12i%12i%12i%12i%12i\n' % (
             dset['record_num'],
             dset['octave_format'],
             dset['measurement_run'],
-- 
2.43.0


From 0f4ebaafe728342b07eb007f3758bb4229d54887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 12/28] fix: write the beam record for every rod element of
 data-set 2412

---
 pyuff/datasets/dataset_2412.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 301f169..0575c08 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -60,7 +60,7 @@ def _write2412(fh, dset):
                     elem['color'],
                     elem['num_nodes'],
                 ))
-                if elem['fe_descriptor'] == 11:
+                if elem['fe_descriptor'] in (11, 21, 22, 23, 24):
                 # Rods have to be written in 3 lines - ad additional line here
                     fh.write('%10i%10i%10i\n' % (
                         elem['beam_orientation'],
-- 
2.43.0


From 5aa91eae4ec93e6db61419817f46a5cd12b1f56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 13/28] fix: keep negative values of data-set 2414 in their
 13-column fields

---
 pyuff/datasets/dataset_2414.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index ef84fe7..fd57159 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -594,14 +594,14 @@ def _write2414(fh, dset):
             fh.write('%10i%10i\n' % (
                                             dset['creation_option'], 
                                             dset['number_retained']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['time'], 
                                             dset['frequency'], 
                                             dset['eigenvalue'], 
                                             dset['modal_mass'],
                                             dset['viscous_damping'], 
                                             dset['hysteretic_damping']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['real_part_eigenvalue'], 
                                             dset['imaginary_part_eigenvalue'], 
                                             dset['real_part_of_modal_A_or_modal_mass'], 
@@ -651,14 +651,14 @@ def _write2414(fh, dset):
                                             dset['record11_field6'], 
                                             dset['record11_field7'],
                                             dset['record11_field8']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['record12_field1'], 
                                             dset['record12_field2'],
                                             dset['record12_field3'],
                                             dset['record12_field4'], 
                                             dset['record12_field5'],
                                             dset['record12_field6']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['record13_field1'], 
                                             dset['record13_field2'],
                                             dset['record13_field3'],
-- 
2.43.0


From 14717c805698f43763bf39825c5dea4f70453009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 14/28] fix: close a data-set 2414 of dataset location 5

---
 pyuff/datasets/dataset_2414.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index fd57159..d4b58fe 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -699,6 +699,7 @@ def _write2414(fh, dset):
 
             elif dset['dataset_location'] == 5:
                 print('Dataset location 5 has not been implemented yet for writing dataset 2414.')
+                fh.write('%6i\n' % (-1))
 
             else:
                 print('Unknown dataset location ' + str(dset['dataset_location']) + '.')
-- 
2.43.0


From 60aa8f65e750dfdee9446ec9c848f51acf080a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 15/28] fix: write the last entities of a data-set 2429 group

---
 pyuff/datasets/dataset_2429.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 89c9bbb..3430639 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -137,7 +137,8 @@ def _write2429(fh, dset):
         # Write the last line
         for i in range(len(dset['entity_type_code']) % 4):
             # don't write the line break just yet
-            fh.write('%10i%10i' % (dset['entity_type_code'][i * 4], dset['entity_tag'][i * 4]))
+            n4 = len(dset['entity_type_code']) // 4 * 4
+            fh.write('%10i%10i' % (dset['entity_type_code'][n4 + i], dset['entity_tag'][n4 + i]))
         # Write the missing line break, but only if a non full last line has been written
         if (len(dset['entity_type_code']) % 4 != 0):
             fh.write('\n')
-- 
2.43.0


From ea142925ac0d2a52628ea2f5c7c5eef591b0c51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 16/28] fix: write the groups of a data-set 2429 as it is
 prepared and read

---
 pyuff/datasets/dataset_2429.py | 60 ++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 3430639..6afb9e0 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -111,37 +111,39 @@ def _write2429(fh, dset):
                 'active_temperature_set_no_for_group': 0,
                 'active_contact_set_no_for_group': 0 }
 
-        dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i\n' % (-1, 2429))
 
-        # Record 1
-        # Field 8 (last field) contains the number or entities in the group
-        fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (dset['group_number'], 
-                                                            dset['active_constraint_set_no_for_group'],
-                                                            dset['active_restraint_set_no_for_group'],
-                                                            dset['active_load_set_no_for_group'],
-                                                            dset['active_dof_set_no_for_group'],
-                                                            dset['active_temperature_set_no_for_group'],
-                                                            dset['active_contact_set_no_for_group'],
-                                                            len(dset['entity_type_code'])))
-        # Record 2
-        fh.write('%-40s\n' % (dset['group_name']))
-
-        # Record 3-N
-        # Write the full lines (which have 4 pairs)
-        for i in range(len(dset['entity_type_code']) // 4):
-            fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (dset['entity_type_code'][i * 4], dset['entity_tag'][i * 4],
-                                                                dset['entity_type_code'][i * 4 + 1], dset['entity_tag'][i * 4 + 1],
-                                                                dset['entity_type_code'][i * 4 + 2], dset['entity_tag'][i * 4 + 2],
-                                                                dset['entity_type_code'][i * 4 + 3], dset['entity_tag'][i * 4 + 3]))
-        # Write the last line
-        for i in range(len(dset['entity_type_code']) % 4):
-            # don't write the line break just yet
-            n4 = len(dset['entity_type_code']) // 4 * 4
-            fh.write('%10i%10i' % (dset['entity_type_code'][n4 + i], dset['entity_tag'][n4 + i]))
-        # Write the missing line break, but only if a non full last line has been written
-        if (len(dset['entity_type_code']) % 4 != 0):
-            fh.write('\n')
+        # a data-set as prepared or read has a list of groups; a single group can be given on its own
+        for group in (dset['groups'] if 'groups' in dset else [dset]):
+            group = _opt_fields(group, dict)
+            # Record 1
+            # Field 8 (last field) contains the number or entities in the group
+            fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['group_number'], 
+                                                                group['active_constraint_set_no_for_group'],
+                                                                group['active_restraint_set_no_for_group'],
+                                                                group['active_load_set_no_for_group'],
+                                                                group['active_dof_set_no_for_group'],
+                                                                group['active_temperature_set_no_for_group'],
+                                                                group['active_contact_set_no_for_group'],
+                                                                len(group['entity_type_code'])))
+            # Record 2
+            fh.write('%-40s\n' % (group['group_name']))
+
+            # Record 3-N
+            # Write the full lines (which have 4 pairs)
+            for i in range(len(group['entity_type_code']) // 4):
+                fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['entity_type_code'][i * 4], group['entity_tag'][i * 4],
+                                                                    group['entity_type_code'][i * 4 + 1], group['entity_tag'][i * 4 + 1],
+                                                                    group['entity_type_code'][i * 4 + 2], group['entity_tag'][i * 4 + 2],
+                                                                    group['entity_type_code'][i * 4 + 3], group['entity_tag'][i * 4 + 3]))
+            # Write the last line
+            for i in range(len(group['entity_type_code']) % 4):
+                # don't write the line break just yet
+                n4 = len(group['entity_type_code']) // 4 * 4
+                fh.write('%10i%10i' % (group['entity_type_code'][n4 + i], group['entity_tag'][n4 + i]))
+            # Write the missing line break, but only if a non full last line has been written
+            if (len(group['entity_type_code']) % 4 != 0):
+                fh.write('\n')
 
         fh.write('%6i\n' % -1)
 
-- 
2.43.0


From 0beac28ee7d8290cef9c9dfa269c152ffdf7912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 17/28] fix: read a data-set 2429 whose last group has no
 entities

---
 pyuff/datasets/dataset_2429.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 6afb9e0..c44bea1 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -159,7 +159,7 @@ def _extract2429(block_data):
         
         # there can be multiple groups in the data-set, therefore need to loop.
         lineIndex = 2
-        while lineIndex < len(split_data) - 2:
+        while lineIndex < len(split_data) - 1:
             group = {}
             group.update(_parse_header_line(split_data[lineIndex], 8, [10, 10, 10, 10, 10, 10, 10, 10], [2, 2, 2, 2, 2, 2, 2, 2],
                                             ['group_number', 'active_constraint_set_no_for_group', 'active_restraint_set_no_for_group', 'active_load_set_no_for_group',
-- 
2.43.0


From 3de8ab9f03934b998964dc3f51810d95cbf5d9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 18/28] fix: default the active sets of each data-set 2467
 group

---
 pyuff/datasets/dataset_2467.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 324cf46..7dad562 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -61,10 +61,10 @@ def _write2467(fh, dset):
                 'active_temperature_set_no_for_group': 0,
                 'active_contact_set_no_for_group': 0}
 
-        dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i\n' % (-1, 2467))
 
         for group in dset['groups']:
+            group = _opt_fields(group, dict)
             # Record 1
             # Field 8 (last field) contains the number or entities in the group
             fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['group_number'],
-- 
2.43.0


From 4e0060c392f1bd27f1d2c74d81710163f9b10a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 19/28] fix: do not print the groups while reading data-set
 2467

---
 pyuff/datasets/dataset_2467.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 7dad562..de66f50 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -124,7 +124,6 @@ def _extract2467(block_data):
     lineIndex = 0
     while lineIndex < len(split_data):
         group = {}
-        print(f"<{split_data[lineIndex]}>")
         group.update(
             _parse_header_line(split_data[lineIndex], 8, [10, 10, 10, 10, 10, 10, 10, 10], [2, 2, 2, 2, 2, 2, 2, 2],
                                ['group_number', 'active_constraint_set_no_for_group',
@@ -141,8 +140,6 @@ def _extract2467(block_data):
         group['entity_tag'] = np.array(values[1::4].copy(), dtype=int)
         group['entity_node_leaf_id'] = np.array(values[2::4].copy(), dtype=int)
         group['entity_component_id'] = np.array(values[3::4].copy(), dtype=int)
-        print(group)
-        print("\n\n")
         dset['groups'].append(group)  # dset is a dictionary, but 'groups' is a list
 
         lineIndex = indexLastLineForGroup
-- 
2.43.0


From 766dfc958bf64ce2ab08e21b7825ad04b35541d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 20/28] fix: keep the temperature and contact set given to
 prepare_group

---
 pyuff/datasets/dataset_2429.py | 4 ++--
 pyuff/datasets/dataset_2467.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index c44bea1..a0b1227 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -262,8 +262,8 @@ def prepare_group(
         'active_restraint_set_no_for_group':  active_restraint_set_no_for_group,
         'active_load_set_no_for_group': active_load_set_no_for_group,
         'active_dof_set_no_for_group': active_dof_set_no_for_group,
-        'active_temperature_set_no_for_group': active_dof_set_no_for_group,
-        'active_contact_set_no_for_group': active_dof_set_no_for_group,
+        'active_temperature_set_no_for_group': active_temperature_set_no_for_group,
+        'active_contact_set_no_for_group': active_contact_set_no_for_group,
         }
     
     if return_full_dict is False:
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index de66f50..e448695 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -237,8 +237,8 @@ def prepare_group(
         'active_restraint_set_no_for_group': active_restraint_set_no_for_group,
         'active_load_set_no_for_group': active_load_set_no_for_group,
         'active_dof_set_no_for_group': active_dof_set_no_for_group,
-        'active_temperature_set_no_for_group': active_dof_set_no_for_group,
-        'active_contact_set_no_for_group': active_dof_set_no_for_group,
+        'active_temperature_set_no_for_group': active_temperature_set_no_for_group,
+        'active_contact_set_no_for_group': active_contact_set_no_for_group,
     }
 
     if return_full_dict is False:
-- 
2.43.0


From 4fba4085c25ae068aeee7c12c03c592b2ef8454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 21/28] fix: check the groups given to prepare_2467 field by
 field

---
 pyuff/datasets/dataset_2467.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index e448695..da5e710 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -279,6 +279,8 @@ def prepare_2467(
             item['group_name'],
             item['entity_type_code'],
             item['entity_tag'],
+            item['entity_node_leaf_id'],
+            item['entity_component_id'],
             item['active_constraint_set_no_for_group'],
             item['active_restraint_set_no_for_group'],
             item['active_load_set_no_for_group'],
-- 
2.43.0


From 771d4c2916cbc0f403dc10231379f03334acfb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 22/28] fix: convert every data-set 2412 to its own data-set 82

---
 pyuff/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/tools.py b/pyuff/tools.py
index a748cfb..703fd40 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -131,9 +131,9 @@ def convert_dataset_2412_to_82(datasets):
     """Converts the dataset 2412 to dataset 82"""
 
     datasets_82 = []
-    nodes = list()
     for i in range(0, len(datasets)):
         if (datasets[i]["type"] == 2412) and ("quad" in datasets[i].keys()):
+            nodes = list()
             for j in range(len(datasets[i]["quad"]["nodes_nums"])):
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][0])
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][1])
-- 
2.43.0


From d9fda661a49b063c499afe2a6f81015c35f1fd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 23/28] fix: repair a 58b file whose final tag has no line end

---
 pyuff/datasets/dataset_58.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 2a85b77..59a58fd 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1524,7 +1524,7 @@ def fix_58b(filename,fixed_filename=None):
                 if len(lines) >= 2:
                     # Move '    -1' up to the end of the previous line
                     prev_line = lines[-2].rstrip(b'\r\n')
-                    prev_line += b'    -1' + lines[-1][-1:]  # Keep the newline character
+                    prev_line += b'    -1' + lines[-1][len(lines[-1].rstrip(b'\r\n')):]  # Keep the newline character
                     lines[-2] = prev_line
                     lines.pop()  # Remove the last line
                 else:
-- 
2.43.0


From 13863e01bb2b1b615e8826a8d753884a7cf1f2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 24/28] fix: refuse complex data with six values per node in
 data-set 55

---
 pyuff/datasets/dataset_55.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 1528971..7c1d1b3 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -396,6 +396,8 @@ def _write55(fh, dset):
         else:
             n_data_per_node = 3
         if np.iscomplexobj(dset['r1']):
+            if n_data_per_node == 6:
+                raise ValueError('Error writing data-set #55: complex data with 6 values per node is not supported')
             data_type = 5
         else:
             data_type = 2
-- 
2.43.0


From 99c4b31a23e4de7bc32e4e8953c255ac7b40f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 25/28] fix: take back an incompletely written data-set

---
 pyuff/pyuff.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 31d62e7..e69486a 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -423,16 +423,20 @@ class UFF:
         if mode.lower() == 'overwrite':
             # overwrite mode
             try:
+                size = 0
                 fh = open(self._filename, 'wt', encoding='utf-8')
             except:
                 raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
         elif mode.lower() == 'add':
             # add (append) mode
             try:
+                size = 0
                 unterminated = False
                 if self.file_exists():
                     with open(self._filename, 'rb') as fh:
-                        unterminated = fh.read()[-1:] not in (b'', b'\n', b'\r')
+                        data = fh.read()
+                    size = len(data)
+                    unterminated = data[-1:] not in (b'', b'\n', b'\r')
                 fh = open(self._filename, 'at', encoding='utf-8')
                 if unterminated:
                     # keep the new start tag on a line of its own
@@ -487,6 +491,10 @@ class UFF:
                 pass
         except:
             fh.close()
+            # take back the part of the data-set that was written before the error
+            with open(self._filename, 'r+b') as fh:
+                fh.truncate(size)
+            self.refresh()
             raise  # re-raise the last exception
         else:
             fh.close()
-- 
2.43.0


From 45ca2fc8ff152c17f7786b3439eb3a746a9ba7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 26/28] fix: keep the data and CR LF line ends when moving 58b
 end tags

---
 pyuff/datasets/dataset_58.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 59a58fd..7980572 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1518,12 +1518,17 @@ def fix_58b(filename,fixed_filename=None):
     else:
         try:
             lines = data.splitlines(keepends=True)
+            # Line end of the file; the data may end with CR or LF bytes of its own
+            eol = b'\r\n' if lines and lines[0].endswith(b'\r\n') else b'\n'
+
+            def without_eol(line):
+                return line[:-len(eol)] if line.endswith(eol) else line.rstrip(b'\r\n')
 
             # Fix 1: Adjust ending '    -1' line
             if len(lines) >= 1 and lines[-1].strip() == b'-1':
                 if len(lines) >= 2:
                     # Move '    -1' up to the end of the previous line
-                    prev_line = lines[-2].rstrip(b'\r\n')
+                    prev_line = without_eol(lines[-2])
                     prev_line += b'    -1' + lines[-1][len(lines[-1].rstrip(b'\r\n')):]  # Keep the newline character
                     lines[-2] = prev_line
                     lines.pop()  # Remove the last line
@@ -1535,8 +1540,8 @@ def fix_58b(filename,fixed_filename=None):
             while i < len(lines) - 3:
                 if (lines[i+1].strip() == b'-1' and lines[i+2].strip() == b'-1'):
                     # Move '    -1' from lines[i+1] to the end of lines[i]
-                    data_line = lines[i].rstrip(b'\r\n')  # Remove newline characters
-                    data_line += b'    -1' + lines[i+1][-1:]  # Add '    -1' and newline
+                    data_line = without_eol(lines[i])  # Remove newline characters
+                    data_line += b'    -1' + lines[i+1][len(lines[i+1].rstrip(b'\r\n')):]  # Add '    -1' and newline
                     lines[i] = data_line
                     del lines[i+1]  # Remove the now-empty line
                     # Do not increment i to recheck the new line at position i
-- 
2.43.0


From 198fc38c168478add74fce44dea9f224d5569eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 27/28] fix: convert data-set 2412 with no quadrilaterals to 82

---
 pyuff/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/tools.py b/pyuff/tools.py
index 703fd40..bdac80c 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -147,7 +147,7 @@ def convert_dataset_2412_to_82(datasets):
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][3])
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][0])
                 nodes.append(0)
-            nodes = np.array(nodes)
+            nodes = np.array(nodes, dtype=int)
             dataset_82 = pyuff.prepare_82(
                 trace_num=i,
                 n_nodes=len(nodes),
-- 
2.43.0


From 631008a803c4c54ed868fee0fa06b636ded7ec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 28/28] fix: take only delimiter lines for misplaced 58b end
 tags

---
 pyuff/datasets/dataset_58.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 7980572..736f794 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1525,7 +1525,7 @@ def fix_58b(filename,fixed_filename=None):
                 return line[:-len(eol)] if line.endswith(eol) else line.rstrip(b'\r\n')
 
             # Fix 1: Adjust ending '    -1' line
-            if len(lines) >= 1 and lines[-1].strip() == b'-1':
+            if len(lines) >= 1 and lines[-1].rstrip() == b'    -1':
                 if len(lines) >= 2:
                     # Move '    -1' up to the end of the previous line
                     prev_line = without_eol(lines[-2])
@@ -1538,7 +1538,7 @@ def fix_58b(filename,fixed_filename=None):
             # Fix 2: Adjust 'data\n    -1\n    -1\n data' patterns
             i = 0
             while i < len(lines) - 3:
-                if (lines[i+1].strip() == b'-1' and lines[i+2].strip() == b'-1'):
+                if (lines[i+1].rstrip() == b'    -1' and lines[i+2].rstrip() == b'    -1'):
                     # Move '    -1' from lines[i+1] to the end of lines[i]
                     data_line = without_eol(lines[i])  # Remove newline characters
                     data_line += b'    -1' + lines[i+1][len(lines[i+1].rstrip(b'\r\n')):]  # Add '    -1' and newline
-- 
2.43.0

