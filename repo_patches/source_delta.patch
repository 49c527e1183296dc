From fc5c35b99a2e2966701d0de20047a410a173ccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:15 +0000
Subject: [PATCH 01/54] fix: compare raw ids, not internal ids, on ordering
 queries over string user/item columns

---
 DRecPy/Dataset/mem_dataset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 8774c71..32b7d4a 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -422,11 +422,12 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             else:
                 value = int(value)
 
-            # use internal ids aux structures to speed up search
-            if column == 'user' and self.has_internal_ids and 'int' not in col_dtype:
+            # use internal ids aux structures to speed up search (internal ids do not preserve the order of raw ids)
+            is_equality = operator == '==' or operator == '!='
+            if column == 'user' and self.has_internal_ids and 'int' not in col_dtype and is_equality:
                 column = 'uid'
                 value = self.user_to_uid(value)
-            elif column == 'item' and self.has_internal_ids and 'int' not in col_dtype:
+            elif column == 'item' and self.has_internal_ids and 'int' not in col_dtype and is_equality:
                 column = 'iid'
                 value = self.item_to_iid(value)
 
-- 
2.43.0


From bb4edf5811a70dc667fee2f95520f04af02908ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:15 +0000
Subject: [PATCH 02/54] fix: quote string values in database queries as sql
 literals

---
 DRecPy/Dataset/db_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index df95d22..7b7ed16 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -746,7 +746,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 elif col_type is list:
                     value = list(value).__repr__()
                 else:
-                    value = str('"' + value + '"')
+                    # single quotes: double quotes would make sqlite read a column name as an identifier
+                    value = "'" + value.replace("'", "''") + "'"
             except ValueError:
                 raise Exception(
                     f'Query "{query}" was failed to be parsed: check if no invalid comparisons are being made '
-- 
2.43.0


From c96ffb41b7918113067f4376d4752aa789d56b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:35 +0000
Subject: [PATCH 03/54] fix: do not modify the column list passed by the caller

---
 DRecPy/Dataset/dataset_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/dataset_abc.py b/DRecPy/Dataset/dataset_abc.py
index c4f1539..ba898ae 100644
--- a/DRecPy/Dataset/dataset_abc.py
+++ b/DRecPy/Dataset/dataset_abc.py
@@ -339,7 +339,7 @@ class InteractionDatasetABC(ABC):
         assert column in self.columns, f'Unexpected column "{column}".'
 
     def _handle_columns(self, columns):
-        if columns is None: columns = copy(self.columns)
+        columns = copy(self.columns if columns is None else columns)  # never modify the list of the caller
         if type(columns) is not list: columns = [columns]
 
         for c in columns:
-- 
2.43.0


From 7069e4f85677bb4c11b3b1a586f6e884cca3c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:57 +0000
Subject: [PATCH 04/54] fix: allow compacting and transforming database
 datasets with projected columns

---
 DRecPy/Dataset/db_dataset.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 7b7ed16..74bfd18 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -530,7 +530,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 self._col_types[column] = new_col_type
                 new_table_name = f'interactions_{str(random.random()).split(".")[1]}'
                 c = self._open_cursor()
-                self._build_table(c, new_table_name)
+                self._build_table(c, new_table_name, required_cols=['rid'])
 
                 cols = ','.join(self.columns)
                 vars = ','.join('?' * len(self.columns))
@@ -834,7 +834,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             # optimize query path by creating a new compressed query node
             red_table = f'interactions_{str(random.random()).split(".")[1]}'
 
-            self._build_table(c, table_name=red_table)
+            self._build_table(c, table_name=red_table, required_cols=['rid'])
 
             col_names = ','.join(self.columns)
             c.execute(f'INSERT INTO {red_table} ({col_names}) SELECT {col_names} FROM ({self._curr_state_source()})')
@@ -900,7 +900,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         if len(records) > 0: c.executemany(insert_query, records)
 
-    def _build_table(self, c, table_name='interactions'):
+    def _build_table(self, c, table_name='interactions', required_cols=('rid', 'user', 'item', 'interaction')):
         py_sql_type = {
             int: 'INTEGER',
             float: 'REAL',
@@ -908,8 +908,6 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             list: 'TEXT'
         }
 
-        required_cols = ['rid', 'user', 'item', 'interaction']
-
         for req_col in required_cols:
             assert req_col in self.columns, f'Missing "{req_col}" column.'
 
-- 
2.43.0


From 46523e24f9723f6da1517dd0cd63a2a3800eb2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:42 +0000
Subject: [PATCH 05/54] fix: migrate shared tables before in-place changes even
 while rows are being read

---
 DRecPy/Dataset/db_dataset.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 74bfd18..bc9b8c2 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -818,19 +818,18 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._n_direct_interactions = 0
 
         if self._state_query == '' and skip_empty_query: return  # nothing to optimize
-        if len(self._open_value_generators) > 0: return  # can't optimize due to value generators being read
-
         self._log('Optimizing state...')
 
         c = self._open_cursor()
 
-        if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1:
-            # this is the only instance using the current active table on this database
+        if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1 \
+                and len(self._open_value_generators) == 0:
+            # this is the only instance using the current active table on this database, and it's not being read
             if self._state_query != '':
                 c.execute(f'DELETE FROM {self._active_table} '
                           f'WHERE rid NOT IN (SELECT rid FROM ({self._curr_state_source()}))')
         else:
-            # this are more instances using the current active table on this database
+            # there are more instances (or open value generators) using the current active table on this database
             # optimize query path by creating a new compressed query node
             red_table = f'interactions_{str(random.random()).split(".")[1]}'
 
-- 
2.43.0


From 2a6da9ea1848e74893b5dac81f3a2b03442b8cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:22 +0000
Subject: [PATCH 06/54] fix: look up fractional raw ids by value in in-memory
 datasets

---
 DRecPy/Dataset/mem_dataset.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 32b7d4a..831234b 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -270,6 +270,11 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 user = int(user)
             except ValueError:
                 raise Exception(f'The provided user type does not match the inferred type (expected: int, found: {type(user)}')
+        elif 'float' in user_dtype:
+            try:
+                user = float(user)
+            except ValueError:
+                raise Exception(f'The provided user type does not match the inferred type (expected: float, found: {type(user)}')
         else: user = str(user)
         return self._user_mapping[user] if user in self._user_mapping else None
 
@@ -287,6 +292,11 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 item = int(item)
             except ValueError:
                 raise Exception(f'The provided item type does not match the inferred type (expected: int, found: {type(item)}')
+        elif 'float' in item_dtype:
+            try:
+                item = float(item)
+            except ValueError:
+                raise Exception(f'The provided item type does not match the inferred type (expected: float, found: {type(item)}')
         else: item = str(item)
         return self._item_mapping[item] if item in self._item_mapping else None
 
-- 
2.43.0


From c6de35af42ab6116028631395642a3fdde7e4e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:11 +0000
Subject: [PATCH 07/54] fix: item interaction vectors of in-memory datasets
 with a single user

---
 DRecPy/Dataset/mem_dataset.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 831234b..011b044 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -167,7 +167,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         assert self.uid_to_user(uid) is not None, f'User internal id {uid} was not found.'
 
         try:
-            if self._cached_interaction_matrix is not None and self._cached_interaction_matrix.shape[0] <= 1:
+            if self._cached_interaction_matrix is False:
                 raise MemoryError
 
             if self._cached_interaction_matrix is None:
@@ -176,7 +176,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             return self._cached_interaction_matrix[uid]
         except MemoryError:
             # don't try to use this again (if it didn't fit in memory now, probably wont fit later)
-            self._cached_interaction_matrix = csr_matrix(0)
+            self._cached_interaction_matrix = False
             cols, interactions = [], []
             df_segment = self._df[self._df['uid'].values == uid]
             projected_cols = [col for col in self.columns if col != 'rid']
@@ -194,7 +194,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         assert self.iid_to_item(iid) is not None, f'Item internal id {iid} was not found.'
 
         try:
-            if self._cached_interaction_matrix is not None and self._cached_interaction_matrix.shape[0] <= 1:
+            if self._cached_interaction_matrix is False:
                 raise MemoryError
 
             if self._cached_interaction_matrix is None:
@@ -203,15 +203,15 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             return self._cached_trans_interaction_matrix[iid]
         except MemoryError:
             # don't try to use this again (if it didn't fit in memory now, probably wont fit later)
-            self._cached_interaction_matrix = csr_matrix(0)
+            self._cached_interaction_matrix = False
 
             cols, interactions = [], []
             df_segment = self._df[self._df['iid'].values == iid]
             projected_cols = [col for col in self.columns if col != 'rid']
-            iid_col_idx = projected_cols.index('iid')
+            uid_col_idx = projected_cols.index('uid')
             interaction_col_idx = projected_cols.index('interaction')
             for row in df_segment[projected_cols].values:
-                cols.append(row[iid_col_idx])
+                cols.append(row[uid_col_idx])
                 interactions.append(float(row[interaction_col_idx])) # floats due to tf not supporting NPY_INT during np.array to tensor
 
             return csr_matrix((interactions, ([0] * len(interactions), cols)),
-- 
2.43.0


From 29ee13e159d22f1acd04118c59aca31756c9a5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:11 +0000
Subject: [PATCH 08/54] fix: interaction vectors of filtered in-memory datasets

---
 DRecPy/Dataset/mem_dataset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 011b044..1ede05c 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -187,7 +187,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 interactions.append(float(row[interaction_col_idx])) # floats due to tf not supporting NPY_INT during np.array to tensor
 
             return csr_matrix((interactions, ([0] * len(interactions), cols)),
-                              shape=(1, self._df.drop_duplicates(subset='iid').shape[0]))[0]
+                              shape=(1, self.max('iid') + 1))[0]
 
     def select_item_interaction_vec(self, iid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
@@ -215,7 +215,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 interactions.append(float(row[interaction_col_idx])) # floats due to tf not supporting NPY_INT during np.array to tensor
 
             return csr_matrix((interactions, ([0] * len(interactions), cols)),
-                              shape=(1, self._df.drop_duplicates(subset='uid').shape[0]))[0]
+                              shape=(1, self.max('uid') + 1))[0]
 
     def unique(self, columns=None, copy=True):
         columns = self._handle_columns(columns).copy()
@@ -492,7 +492,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
 
         users, cols, interactions = [], [], []
-        n_uids = self.count_unique('uid')
+        n_uids = self.max('uid') + 1  # not the number of distinct uids: rows might have been filtered out
         projected_cols = [col for col in self.columns if col != 'rid']
         iid_col_idx = projected_cols.index('iid')
         interaction_col_idx = projected_cols.index('interaction')
@@ -504,6 +504,6 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 interactions.append(float(row[interaction_col_idx]))  # floats due to tf not supporting NPY_INT during np.array to tensor
 
         self._cached_interaction_matrix = csr_matrix((interactions, (users, cols)),
-                                                     shape=(n_uids, self.count_unique('iid')))
+                                                     shape=(n_uids, self.max('iid') + 1))
 
         self._cached_trans_interaction_matrix = self._cached_interaction_matrix.transpose()
-- 
2.43.0


From 7459339b8004fdbf87abd19c41a36c31f006c9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:11 +0000
Subject: [PATCH 09/54] fix: discard cached interaction vectors when the
 records of a dataset change

---
 DRecPy/Dataset/db_dataset.py  | 8 ++++++++
 DRecPy/Dataset/mem_dataset.py | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index bc9b8c2..ef7ec0e 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -483,6 +483,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         self._create_internal_id_indexes(c, table_name=self._active_table)  # after optimize_states, self._state_query = new table name
         self._conn.commit()
+        self._clear_vec_caches()
         self.has_internal_ids = True
 
     def remove_internal_ids(self):
@@ -558,6 +559,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 self._state_query = ''
 
             self._conn.commit()
+            self._clear_vec_caches()
 
         except Exception as e:
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
@@ -790,8 +792,14 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 and len(self._open_value_generators) == 0:
             self._optimize_states()
 
+    def _clear_vec_caches(self):
+        """Discards the cached interaction vectors, and must be called whenever the current records change."""
+        self._user_interaction_vec_cache.clear()
+        self._item_interaction_vec_cache.clear()
+
     def _update_state(self, new_state):
         self._queries_wo_optimize += 1
+        self._clear_vec_caches()
 
         self._n_rows = self._open_cursor().execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
 
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 1ede05c..54bec27 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -82,6 +82,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
     def select(self, query, copy=True):
         new_ds = self.copy() if copy else self
         new_ds._apply_query(query)
+        new_ds._clear_interaction_matrix()
 
         return new_ds
 
@@ -226,6 +227,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         new_ds._df = new_ds._df.drop_duplicates(subset=df_columns)
         new_ds._df = new_ds._df[df_columns]
         new_ds.columns = columns
+        new_ds._clear_interaction_matrix()
 
         return new_ds
 
@@ -259,6 +261,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             new_ds._df = new_ds._df[new_ds._df.index.isin(record_ids)]
         else:
             new_ds._df = new_ds._df[~new_ds._df.index.isin(record_ids)]
+        new_ds._clear_interaction_matrix()
         return new_ds
 
     def user_to_uid(self, user):
@@ -337,6 +340,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         self._item_mapping = dict([(cat, code) for code, cat in enumerate(item_cat.categories)])
         self._item_mapping_inv = dict([(code, cat) for code, cat in enumerate(item_cat.categories)])
 
+        self._clear_interaction_matrix()
         self.has_internal_ids = True
 
     def remove_internal_ids(self):
@@ -488,6 +492,11 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 return self._df[condition_vector]
             return self._df
 
+    def _clear_interaction_matrix(self):
+        """Discards the cached interaction matrix, and must be called whenever the current records change."""
+        self._cached_interaction_matrix = None
+        self._cached_trans_interaction_matrix = None
+
     def _build_interaction_matrix(self):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
 
-- 
2.43.0


From cc9e8551abce5839e0a0ba242f0b14d1259f5c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:50 +0000
Subject: [PATCH 10/54] fix: keep the data of saved database files when
 datasets loaded from them are filtered, transformed or closed

---
 DRecPy/Dataset/db_dataset.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index ef7ec0e..f448f9e 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -587,7 +587,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
             if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 0:
                 del self._shared_db_table_instances[self._db_path + self._active_table]
-                if len(self._open_value_generators) == 0:
+                if len(self._open_value_generators) == 0 and not self._is_persisted_table():
                     self._open_cursor().execute(f'DROP TABLE {self._active_table}')
 
         if self._conn is not None:
@@ -792,6 +792,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 and len(self._open_value_generators) == 0:
             self._optimize_states()
 
+    def _is_persisted_table(self):
+        """Returns True if the active table is the one of a saved database file, and not of a temporary one."""
+        return '.tmp.' not in self._db_path and self._active_table == 'interactions'
+
     def _clear_vec_caches(self):
         """Discards the cached interaction vectors, and must be called whenever the current records change."""
         self._user_interaction_vec_cache.clear()
@@ -831,13 +835,14 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         c = self._open_cursor()
 
         if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1 \
-                and len(self._open_value_generators) == 0:
+                and len(self._open_value_generators) == 0 and not self._is_persisted_table():
             # this is the only instance using the current active table on this database, and it's not being read
             if self._state_query != '':
                 c.execute(f'DELETE FROM {self._active_table} '
                           f'WHERE rid NOT IN (SELECT rid FROM ({self._curr_state_source()}))')
         else:
-            # there are more instances (or open value generators) using the current active table on this database
+            # there are more instances (or open value generators) using the current active table on this database,
+            # or it's a saved table, which only changes when explicitly saved
             # optimize query path by creating a new compressed query node
             red_table = f'interactions_{str(random.random()).split(".")[1]}'
 
-- 
2.43.0


From e09d4163c8a407a7be3dbe7cb62d1d5b66463198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:50 +0000
Subject: [PATCH 11/54] fix: restore the column types when loading a saved
 database file

---
 DRecPy/Dataset/db_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index f448f9e..010fd3c 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -609,7 +609,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._log('Trying to load data from existing database...')
         self._open_connection(path, loading=True)
         self._n_rows = len(self)
-        self.columns = [v[1] for v in self._conn.execute('PRAGMA table_info(interactions)').fetchall() if v[1] not in ['uid', 'iid']]
+        sql_py_type = {'INTEGER': int, 'REAL': float, 'TEXT': str}
+        table_info = self._conn.execute('PRAGMA table_info(interactions)').fetchall()
+        self.columns = [v[1] for v in table_info if v[1] not in ['uid', 'iid']]
+        self._col_types = {v[1]: sql_py_type[v[2]] for v in table_info}
 
     def _load_from_csv(self, path, delimiter, has_header, encoding):
 
-- 
2.43.0


From 3d8f111cddfc8411f1f18bb5deb166fae33338e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:50 +0000
Subject: [PATCH 12/54] fix: save databases atomically and keep using the new
 file after saving over the loaded one

---
 DRecPy/Dataset/db_dataset.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 010fd3c..c6041ba 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -8,7 +8,7 @@ import csv
 import random
 from tqdm import tqdm
 from os import remove
-from os import rename
+from os import replace
 from os.path import isfile
 from os.path import join
 from os.path import expanduser
@@ -422,12 +422,16 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
             if path == self._db_path:  # updating origin db - requires to re-open connection
                 self._conn.close()
-                if isfile(path): remove(path)
-                rename(tmp_path, path)
+                replace(tmp_path, path)
                 self._open_connection(path, loading=True)
+                # the new file only contains the saved records
+                self._shared_db_table_instances[path + self._active_table].remove(id(self))
+                self._active_table = 'interactions'
+                self._shared_db_table_instances.setdefault(path + self._active_table, set()).add(id(self))
+                self._state_query = ''
+                if self.has_internal_ids: self.assign_internal_ids()
             else:  # saving into distinct destination
-                if isfile(path): remove(path)
-                rename(tmp_path, path)
+                replace(tmp_path, path)
         else:
             projected_cols = self._handle_columns(columns)
             if 'rid' in projected_cols: projected_cols.remove('rid')
-- 
2.43.0


From f94c4da8e96def37e1bf3b68465b73d11ed3bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 13/54] fix: quote delimiters and support a single column when
 saving database datasets as csv

---
 DRecPy/Dataset/db_dataset.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index c6041ba..d8f2aa6 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -438,12 +438,11 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             if 'uid' in projected_cols: projected_cols.remove('uid')
             if 'iid' in projected_cols: projected_cols.remove('iid')
             with open(path, 'w') as f:
+                csv_writer = csv.writer(f, lineterminator='\n')  # quotes values containing delimiters
                 if write_header:
-                    f.write(','.join(projected_cols))
-                    f.write('\n')
-                for row in self.values(columns=projected_cols, to_list=True):
-                    f.write(','.join([str(col) if col is not None else '' for col in row]))
-                    f.write('\n')
+                    csv_writer.writerow(projected_cols)
+                for row in self.values(columns=projected_cols):
+                    csv_writer.writerow([row[col] for col in projected_cols])
 
     def assign_internal_ids(self):
         self._optimize_states()
-- 
2.43.0


From 51e5896bb3514a01cfcd69ed2d58e1cb00cb0cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 14/54] fix: save only the requested columns of in-memory
 datasets

---
 DRecPy/Dataset/mem_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 54bec27..0ec00ef 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -313,7 +313,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
         if len(path) == 0: path = self.path
 
-        projected_cols = deepcopy(self.columns)
+        projected_cols = deepcopy(self._handle_columns(columns))
         if 'rid' in projected_cols: projected_cols.remove('rid')
         if 'uid' in projected_cols: projected_cols.remove('uid')
         if 'iid' in projected_cols: projected_cols.remove('iid')
-- 
2.43.0


From 8955a647f2cbbb5b89a051b95bf5ed47a9fb8101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 15/54] fix: save only the requested columns to database files

---
 DRecPy/Dataset/db_dataset.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index d8f2aa6..abac9b6 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -406,6 +406,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     path != self._db_path and path in self._shared_db_instances and len(self._shared_db_instances[path]) > 0:
                 raise Exception(f'Cannot save the current data into "{path}" because there are other '
                                 f'instances that are using this file.')
+            projected_cols = [col for col in self._handle_columns(columns) if col not in ['rid', 'uid', 'iid']] + ['rid']
             tmp_path = path + ".tmp"
             if isfile(tmp_path): remove(tmp_path)
 
@@ -413,8 +414,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._set_pragmas(new_db)
             new_db_c = new_db.cursor()
 
-            self._build_table(new_db_c)
-            self._copy_to_new_db(new_db_c)
+            self._build_table(new_db_c, columns=projected_cols)
+            self._copy_to_new_db(new_db_c, projected_cols)
             self._build_indexes(new_db_c)
             new_db_c.close()
             new_db.commit()
@@ -429,6 +430,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 self._active_table = 'interactions'
                 self._shared_db_table_instances.setdefault(path + self._active_table, set()).add(id(self))
                 self._state_query = ''
+                self.columns = projected_cols
                 if self.has_internal_ids: self.assign_internal_ids()
             else:  # saving into distinct destination
                 replace(tmp_path, path)
@@ -895,11 +897,11 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._open_connection(self._db_path)
             return self._conn.cursor()
 
-    def _copy_to_new_db(self, c, keep_rids=False):
+    def _copy_to_new_db(self, c, columns=None, keep_rids=False):
         """Copies the records returned from the current state to the interactions table of the provided connection."""
         records = []
         ctd = 0
-        projected_cols = shallowcopy(self.columns)
+        projected_cols = shallowcopy(self.columns if columns is None else columns)
         # make sure 'rid' is the last column
         projected_cols.remove('rid')
         projected_cols.append('rid')
@@ -918,7 +920,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         if len(records) > 0: c.executemany(insert_query, records)
 
-    def _build_table(self, c, table_name='interactions', required_cols=('rid', 'user', 'item', 'interaction')):
+    def _build_table(self, c, table_name='interactions', required_cols=('rid', 'user', 'item', 'interaction'),
+                     columns=None):
+        if columns is None: columns = self.columns
         py_sql_type = {
             int: 'INTEGER',
             float: 'REAL',
@@ -927,14 +931,14 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         }
 
         for req_col in required_cols:
-            assert req_col in self.columns, f'Missing "{req_col}" column.'
+            assert req_col in columns, f'Missing "{req_col}" column.'
 
         create_sql_statement = f'CREATE TABLE {table_name} (' \
             'rid INTEGER PRIMARY KEY,' \
             'uid INTEGER,' \
             'iid INTEGER'
 
-        for col in self.columns:
+        for col in columns:
             if col not in ['rid', 'uid', 'iid']:
                 create_sql_statement += f',{col} {py_sql_type[self._col_types[col]]}'
 
-- 
2.43.0


From 8bc594b30b518e98b994346ee868c617fe195931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:19 +0000
Subject: [PATCH 16/54] fix: use the requested encoding on both passes over an
 imported file

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index abac9b6..90c1a79 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -678,7 +678,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         # read num of lines + detect column types
         num_lines = 0
         first_line = None
-        with open(path, 'r') as f:
+        with open(path, 'r', encoding=encoding) as f:
             for row in f:
                 if first_line is None and ((num_lines == 0 and has_header is False) or num_lines > 0):
                     if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
-- 
2.43.0


From 91a33c18a51db1a7c4167ecfe796e174af74a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:51 +0000
Subject: [PATCH 17/54] fix: import fields containing commas from files with
 multi-character delimiters

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 90c1a79..d95d92b 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -673,7 +673,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         replace_delimiter = False
         if len(orig_delimiter) > 1:  # due to csv not accept delimiters with more than 1 char
             replace_delimiter = True
-            new_delimiter = ','
+            new_delimiter = '\x1f'  # must not be part of any field (unlike a comma)
 
         # read num of lines + detect column types
         num_lines = 0
-- 
2.43.0


From 7866c00a69ce2a19f0b094c7d6d4ca4d990fc78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:40 +0000
Subject: [PATCH 18/54] fix: import files with more than one skipped column
 into memory

---
 DRecPy/Dataset/mem_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 0ec00ef..5f60326 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -32,9 +32,11 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             has_header = kwds.get('has_header', True)
 
             use_cols = [i for col, i in zip(projected_cols, range(len(projected_cols))) if col is not None]
+            # pandas requires distinct names, even for the columns that are skipped
+            col_names = [col if col is not None else f'skip_col_{i}' for i, col in enumerate(projected_cols)]
             skip_rows = 1 if has_header else 0
 
-            self._df = pd.read_csv(path, delimiter=delimiter, names=projected_cols, encoding=kwds.get('encoding'),
+            self._df = pd.read_csv(path, delimiter=delimiter, names=col_names, encoding=kwds.get('encoding'),
                                    skiprows=skip_rows, usecols=use_cols)
             self.columns = [col for col in self.columns if col is not None]  # remove any skip cols
         else:
-- 
2.43.0


From 0e192143afa059d26a86e43500d35e079dde5a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:31 +0000
Subject: [PATCH 19/54] fix: allow closing a database dataset more than once
 while other datasets share its file

---
 DRecPy/Dataset/db_dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index d95d92b..f3fbd41 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -588,7 +588,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     def close(self):
         """Cleanup method to delete temporary database files when they're not in use anymore."""
 
-        if self._db_path is not None and self._db_path + self._active_table in self._shared_db_table_instances:
+        if self._db_path is not None and \
+                id(self) in self._shared_db_table_instances.get(self._db_path + self._active_table, ()):
             self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
             if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 0:
                 del self._shared_db_table_instances[self._db_path + self._active_table]
@@ -598,7 +599,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         if self._conn is not None:
             self._conn.close()
 
-        if self._db_path is not None and self._db_path in self._shared_db_instances:
+        if self._db_path is not None and id(self) in self._shared_db_instances.get(self._db_path, ()):
             self._shared_db_instances[self._db_path].remove(id(self))
             if len(self._shared_db_instances[self._db_path]) == 0:
                 del self._shared_db_instances[self._db_path]
-- 
2.43.0


From f15b44d79c23696662e3566dce19a4f4f0c130fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:09 +0000
Subject: [PATCH 20/54] fix: split datasets with string user ids

---
 DRecPy/Evaluation/Splits/leave_k_out.py  | 4 ++--
 DRecPy/Evaluation/Splits/matrix_split.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Evaluation/Splits/leave_k_out.py b/DRecPy/Evaluation/Splits/leave_k_out.py
index 2d2a91e..68ad46c 100644
--- a/DRecPy/Evaluation/Splits/leave_k_out.py
+++ b/DRecPy/Evaluation/Splits/leave_k_out.py
@@ -98,7 +98,7 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
 
 def _leave_k_out_user_ratio(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
     n_sampled_items = int(len(user_rows_ds) * k)
     _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, n_sampled_items, rng,
                       last_timestamps, timestamp_label)
@@ -106,7 +106,7 @@ def _leave_k_out_user_ratio(interaction_dataset, train_rids_to_rem, test_rids, m
 
 def _leave_k_out_user_fixed(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
     _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, k, rng,
                       last_timestamps, timestamp_label)
 
diff --git a/DRecPy/Evaluation/Splits/matrix_split.py b/DRecPy/Evaluation/Splits/matrix_split.py
index 2d1fa6d..7bfc31a 100644
--- a/DRecPy/Evaluation/Splits/matrix_split.py
+++ b/DRecPy/Evaluation/Splits/matrix_split.py
@@ -86,7 +86,7 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
 def _matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user, min_user_interactions, test_items_set,
                        test_users_set):
     global n_tasks_done
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
 
     if len(user_rows_ds) < min_user_interactions:  # not enough user interactions
         with train_rem_lock:
-- 
2.43.0


From a72634ef3e1c8b4866418b72931bed9999455dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:43 +0000
Subject: [PATCH 21/54] fix: sample negative pairs from in-memory datasets

---
 DRecPy/Dataset/mem_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 5f60326..ba2e1b8 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -143,14 +143,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         else:
             try:
                 negative_ds = self._apply_query(f'interaction < {interaction_threshold}', in_place=False)
-                existing_null_pair_gen = self.select_random_generator(negative_ds, seed=seed)
+                existing_null_pair_gen = self._select_random_generator(negative_ds, seed=seed)
                 next(existing_null_pair_gen)  # force error if there's no matches
             except:
                 existing_null_pair_gen = None
 
         max_uid = self.max('uid')
         max_iid = self.max('iid')
-        n_possible_combs = max_uid.astype(np.float) * max_iid.astype(np.float)
+        n_possible_combs = int(max_uid) * int(max_iid)
 
         uid_values = self._df['uid'].values
         iid_values = self._df['iid'].values
-- 
2.43.0


From 2438446e42ca23631a4be8fd0cbf34b3975fd162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:43 +0000
Subject: [PATCH 22/54] fix: the f-score of recommendations without hits is
 zero

---
 DRecPy/Evaluation/Metrics/ranking.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DRecPy/Evaluation/Metrics/ranking.py b/DRecPy/Evaluation/Metrics/ranking.py
index b39d12f..1c64171 100644
--- a/DRecPy/Evaluation/Metrics/ranking.py
+++ b/DRecPy/Evaluation/Metrics/ranking.py
@@ -208,6 +208,7 @@ class FScore(RankingMetricABC):
 
         p = self.precision(recommendations, relevant_recommendations=relevant_recommendations, k=k)
         r = self.recall(recommendations, relevant_recommendations=relevant_recommendations, k=k)
+        if p == 0 and r == 0: return 0
 
         return (1 + self.beta ** 2) * p * r / ((self.beta ** 2 * p) + r)
 
-- 
2.43.0


From 5acaf45d2493db5d0532f337424ec0320cf37e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:01 +0000
Subject: [PATCH 23/54] fix: evaluate rankings and recommendations on string
 ids

---
 DRecPy/Evaluation/Processes/ranking_evaluation.py        | 6 +++---
 DRecPy/Evaluation/Processes/recommendation_evaluation.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index 4333e20..bf0833d 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -164,7 +164,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                               train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs, rng):
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
-    user_ds = ds_test.select(f'user == {user}')
+    user_ds = ds_test.select(f'user == {user!r}')
 
     # get positive interactions
     user_test_pos_ds = user_ds.select(f'interaction >= {interaction_threshold}')
@@ -194,7 +194,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                 user_train_pos_ds = user_test_pos_ds
             else:
                 user_train_pos_ds = model.interaction_dataset \
-                    .select(f'user == {user}, interaction >= {interaction_threshold}')
+                    .select(f'user == {user!r}, interaction >= {interaction_threshold}')
 
             item_blacklist = set(user_train_pos_ds.unique('item').values_list('item', to_list=True))
             if not train_evaluation:
@@ -220,7 +220,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
 
     # rank according to model
     recommendations = [item for _, item in model.rank(user, all_items, novelty=novelty, skip_invalid_items=True)]
-    relevancies = {item: (user_ds.select_one(f'item == {item}', ['interaction'], to_list=True) or 0)
+    relevancies = {item: (user_ds.select_one(f'item == {item!r}', ['interaction'], to_list=True) or 0)
                    for item in all_items}
 
     # evaluate performance
diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index 98816b9..fc1bf11 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -138,7 +138,7 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
     global n_tasks_done
-    user_ds = ds_test.select(f'user == {user}')
+    user_ds = ds_test.select(f'user == {user!r}')
 
     # get positive interactions
     user_test_pos_ds = user_ds.select(f'interaction >= {interaction_threshold}')
@@ -163,7 +163,7 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
 
     recommendations = [item for _, item in model.recommend(user, n=max(k), novelty=novelty, skip_invalid_items=True,
                                                            interaction_threshold=ignore_low_predictions_threshold)]
-    relevancies = {item: (user_ds.select_one(f'item == {item}', ['interaction'], to_list=True) or 0)
+    relevancies = {item: (user_ds.select_one(f'item == {item!r}', ['interaction'], to_list=True) or 0)
                    for item in set(user_interacted_items).union(set(recommendations))}
 
     # evaluate performance
-- 
2.43.0


From 700c3b86d79e4fa9bc4c9cc7741960b301889d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:01 +0000
Subject: [PATCH 24/54] fix: the best item of a user is the one with the
 highest interaction value

---
 DRecPy/Evaluation/Processes/ranking_evaluation.py        | 2 +-
 DRecPy/Evaluation/Processes/recommendation_evaluation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index bf0833d..659b256 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -176,7 +176,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
     best_item = None if len(user_interacted_items) == 0 else \
-        max(user_interacted_items, key=lambda p: -p['interaction'])['item']
+        max(user_interacted_items, key=lambda p: p['interaction'])['item']
     user_interacted_items = [pair['item'] for pair in user_interacted_items]
 
     # get negative interactions
diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index fc1bf11..d0588ca 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -152,7 +152,7 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
     best_item = None if len(user_interacted_items) == 0 else \
-        max(user_interacted_items, key=lambda p: -p['interaction'])['item']
+        max(user_interacted_items, key=lambda p: p['interaction'])['item']
     user_interacted_items = [pair['item'] for pair in user_interacted_items]
 
     # join and shuffle all items
-- 
2.43.0


From c15dee2c5c4885abf6730c2a7b22e264b5f144b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:20 +0000
Subject: [PATCH 25/54] fix: recommendation evaluation does not wait forever
 for users the model cannot recommend to

---
 .../Processes/recommendation_evaluation.py    | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index d0588ca..d629959 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -9,6 +9,7 @@ import matplotlib.pyplot as plt
 from multiprocessing.pool import ThreadPool
 from threading import Lock
 import time
+import logging
 
 n_tasks_done = 0
 n_tasks_lock = Lock()
@@ -135,9 +136,22 @@ def recommendation_evaluation(model, ds_test=None, n_test_users=None, k=10, n_po
 
 def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
                                     novelty, ignore_low_predictions_threshold, metric_sums, k, rng):
+    global n_tasks_done
+
+    try:
+        __recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
+                                         novelty, ignore_low_predictions_threshold, metric_sums, k, rng)
+    except Exception as e:
+        logging.error(e)
+    finally:
+        with n_tasks_lock:
+            n_tasks_done += 1
+
+
+def __recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
+                                     novelty, ignore_low_predictions_threshold, metric_sums, k, rng):
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
-    global n_tasks_done
     user_ds = ds_test.select(f'user == {user!r}')
 
     # get positive interactions
@@ -146,8 +160,6 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
         user_interacted_items = user_test_pos_ds.values_list(['item', 'interaction'])
     else:
         if len(user_test_pos_ds) < n_pos_interactions:  # not enough positive interactions
-            with n_tasks_lock:
-                n_tasks_done += 1
             return
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
@@ -157,8 +169,6 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
 
     # join and shuffle all items
     if len(user_interacted_items) == 0:
-        with n_tasks_lock:
-            n_tasks_done += 1
         return
 
     recommendations = [item for _, item in model.recommend(user, n=max(k), novelty=novelty, skip_invalid_items=True,
@@ -187,6 +197,3 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
                     metric_sums[(m.name, k_)][0] += m(**params)
                     metric_sums[(m.name, k_)][1] += 1
                 except: pass
-
-    with n_tasks_lock:
-        n_tasks_done += 1
-- 
2.43.0


From 404c30d62c70c1e4feb27bef449f7f6ee5ec1df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:43 +0000
Subject: [PATCH 26/54] fix: sample groups identified by string values

---
 DRecPy/Sampler/list_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index a6175ef..2732c30 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -94,7 +94,7 @@ class ListSampler:
                 chosen_group = self.rng.choice(self.unique_groups)
                 if not isinstance(chosen_group, list):
                     chosen_group = [chosen_group]
-                query = ','.join([f'{group_col} == {chosen_col_group}' for group_col, chosen_col_group
+                query = ','.join([f'{group_col} == {chosen_col_group!r}' for group_col, chosen_col_group
                                   in zip(self.group_columns, chosen_group)])
                 group_records_ds = self.interaction_dataset.select(query)
                 if self.interaction_threshold is None:
-- 
2.43.0


From 4b592e83621b7fe9cc780149687d5fd4bb29225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:43 +0000
Subject: [PATCH 27/54] fix: sample negative ids from a sequence, in an order
 that only depends on the data

---
 DRecPy/Sampler/list_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index 2732c30..8d7a377 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -144,7 +144,7 @@ class ListSampler:
                                         f'({self.neg_ratio}) or the n_targets ({self.n_targets}).')
                     continue
 
-                negative_ids = self.rng.sample(eligible_negative_ids, n_negative_ids)
+                negative_ids = self.rng.sample(sorted(eligible_negative_ids), n_negative_ids)
                 group_records_list.append((positive_group_records, target_group_records, negative_ids))
                 break
 
-- 
2.43.0


From f488cfd07e2d9e130544a906cbb5c4dfeda984a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:43 +0000
Subject: [PATCH 28/54] fix: the targets of a sampled group are the records
 following its positive records

---
 DRecPy/Sampler/list_sampler.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index 8d7a377..abafca6 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -116,11 +116,9 @@ class ListSampler:
                 all_positive_group_records = positive_group_records
 
                 padding = None
-                if self.max_positive_records is not None and len(positive_group_records) > self.max_positive_records:
-                    if self.n_targets is None:
-                        padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records)
-                    else:
-                        padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records - self.n_targets)
+                n_targets = self.n_targets or 0
+                if self.max_positive_records is not None and len(positive_group_records) > self.max_positive_records + n_targets:
+                    padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records - n_targets)
                     positive_group_records = positive_group_records[padding:padding + self.max_positive_records]
 
                 if self.n_targets is None:
@@ -129,8 +127,8 @@ class ListSampler:
 
                 eligible_negative_ids = self.unique_negative_ids.difference(set([rec[self.negative_ids_col] for rec in all_positive_group_records]))
                 if padding is None:
-                    target_group_records = positive_group_records[self.n_targets:]
-                    positive_group_records = positive_group_records[:self.n_targets]
+                    target_group_records = positive_group_records[-self.n_targets:]
+                    positive_group_records = positive_group_records[:-self.n_targets]
                 else:
                     target_group_records = all_positive_group_records[padding + self.max_positive_records:padding + self.max_positive_records + self.n_targets]
 
-- 
2.43.0


From d1c6526739f57e79863cb09dc62338b2140ce557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:02 +0000
Subject: [PATCH 29/54] fix: do not sample pairs as negative when another of
 their records is positive

---
 DRecPy/Dataset/db_dataset.py  | 5 +++++
 DRecPy/Dataset/mem_dataset.py | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index f3fbd41..0da551d 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -222,6 +222,11 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         while True:
             if existing_null_pair_gen is not None and rng.randint(0, n_possible_combs + len(negative_ds)) >= n_possible_combs:
                 existing_null_pair = next(existing_null_pair_gen)
+                query_conditions = self._parse_query(f"uid == {existing_null_pair['uid']}, iid == {existing_null_pair['iid']}, "
+                                                     f"interaction >= {interaction_threshold}")
+                new_state = self._build_new_state(query_conditions)
+                if c.execute(new_state).fetchone() is not None:
+                    continue  # another record of the same pair is positive
                 yield existing_null_pair['uid'], existing_null_pair['iid']
             else:
                 random_uid = rng.randint(0, max_uid)
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index ba2e1b8..25da556 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -157,6 +157,9 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         while True:
             if existing_null_pair_gen is not None and rng.randint(0, n_possible_combs + len(negative_ds)) >= n_possible_combs:
                 existing_null_pair = next(existing_null_pair_gen)
+                pair_mask = (uid_values == existing_null_pair['uid']) & (iid_values == existing_null_pair['iid'])
+                if (self._df['interaction'].values[pair_mask] >= interaction_threshold).any():
+                    continue  # another record of the same pair is positive
                 yield existing_null_pair['uid'], existing_null_pair['iid']
             else:
                 random_uid = rng.randint(0, max_uid)
-- 
2.43.0


From 92b06b0f1e60d0888eefc245e36da3b0598294e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:22 +0000
Subject: [PATCH 30/54] fix: pearson correlations of data without any defined
 correlation

---
 DRecPy/Recommender/Baseline/similarity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DRecPy/Recommender/Baseline/similarity.py b/DRecPy/Recommender/Baseline/similarity.py
index 159dbce..98c709d 100644
--- a/DRecPy/Recommender/Baseline/similarity.py
+++ b/DRecPy/Recommender/Baseline/similarity.py
@@ -166,6 +166,9 @@ def pearson_corr(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
+    if len(data) == 0:  # no correlation is defined
+        return csr_matrix((n, n))
+
     return csr_matrix((data, (rows, cols)))
 
 
-- 
2.43.0


From f0fb0a3fa3fbd70abdbd37fb5ac97c03a5ceed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:29 +0000
Subject: [PATCH 31/54] fix: jaccard similarities of rows without entries

---
 DRecPy/Recommender/Baseline/similarity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/Baseline/similarity.py b/DRecPy/Recommender/Baseline/similarity.py
index 98c709d..68d6091 100644
--- a/DRecPy/Recommender/Baseline/similarity.py
+++ b/DRecPy/Recommender/Baseline/similarity.py
@@ -82,7 +82,9 @@ def jaccard_sim(matrix):
         intersection = matrix.dot(matrix.T)
         row_sums = intersection.diagonal()
         row_sums = row_sums[:, None] + row_sums
-        return csr_matrix(intersection / (row_sums - intersection))
+        union = row_sums - intersection
+        union[union == 0] = 1  # rows without entries
+        return csr_matrix(intersection / union)
 
     def iterative_jacc(matrix):
         matrix = lil_matrix(matrix)
-- 
2.43.0


From fe4cb61704815e87b5f0202cf44cc7d5608dfba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:35 +0000
Subject: [PATCH 32/54] fix: mean squared difference similarities of data with
 a single value

---
 DRecPy/Recommender/Baseline/similarity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DRecPy/Recommender/Baseline/similarity.py b/DRecPy/Recommender/Baseline/similarity.py
index 68d6091..56f69ea 100644
--- a/DRecPy/Recommender/Baseline/similarity.py
+++ b/DRecPy/Recommender/Baseline/similarity.py
@@ -179,6 +179,7 @@ def msd(matrix):
         matrix = csr_matrix(matrix)
 
     max_diff = matrix.max() - matrix.min()
+    if max_diff == 0: max_diff = 1  # all values are the same
 
     if type(matrix) is not lil_matrix:
         matrix = lil_matrix(matrix)
-- 
2.43.0


From 55b1e8e266ccba66d445f9625e92a411b7665b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:31 +0000
Subject: [PATCH 33/54] fix: copy the dataset when fitting with copy_dataset

---
 DRecPy/Recommender/recommender_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 352aac3..aed3330 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -134,7 +134,7 @@ class RecommenderABC(ABC):
         self.interaction_dataset = interaction_dataset
         if copy_dataset:
             self._info('Cloning new dataset instance...')
-            self.interaction_dataset = interaction_dataset.__copy__()
+            self.interaction_dataset = interaction_dataset.copy()
         self.interaction_dataset.assign_internal_ids()
 
         self.min_interaction = self.interaction_dataset.min('interaction')
-- 
2.43.0


From 8dafbdf436ca8cbe2ea85149012b44e708de7058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:31 +0000
Subject: [PATCH 34/54] fix: keep training when the last early stopping
 computation finds invalid results

---
 DRecPy/Recommender/recommender_abc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index aed3330..cdcf10f 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -228,8 +228,8 @@ class RecommenderABC(ABC):
                                                                             self._loss_tracker.called_epochs)
                     if early_stopping_rule.stop_training(e, early_stopping_best_epoch, epochs):
                         break
-                except InvalidEpochValidationResultsException as e:
-                    self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {e}')
+                except InvalidEpochValidationResultsException as err:
+                    self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {err}')
 
             if early_stopping_best_epoch is not None:
                 progress_desc += f' | {early_stopping_rule.__class__.__name__} best epoch: {early_stopping_best_epoch}'
@@ -247,8 +247,8 @@ class RecommenderABC(ABC):
                 if self.verbose:
                     _iter.set_description(progress_desc)
                 self._info(progress_desc, log_console=False)
-            except InvalidEpochValidationResultsException as e:
-                self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {e}')
+            except InvalidEpochValidationResultsException as err:
+                self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {err}')
 
         if early_stopping_best_epoch is not None and early_stopping_best_epoch != epochs:
             self._info(f'Reverting network weights to epoch {early_stopping_best_epoch} due to the evaluation of the '
-- 
2.43.0


From cff6c23ad944209b08613423a79ba00e8991eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:31 +0000
Subject: [PATCH 35/54] fix: snapshot the weights of registered layers and
 models at each epoch

---
 DRecPy/Recommender/recommender_abc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index cdcf10f..3827b2a 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -336,8 +336,8 @@ class RecommenderABC(ABC):
     def _store_epoch_weights(self):
         self.epoch_weights.append({
             'trainable_weights': copy.deepcopy(self.trainable_weights),
-            'trainable_layers': [layer.trainable_weights for layer in self.trainable_layers],
-            'trainable_models': [model.trainable_weights for model in self.trainable_models]
+            'trainable_layers': [layer.get_weights() for layer in self.trainable_layers],
+            'trainable_models': [model.get_weights() for model in self.trainable_models]
         })
 
     def _revert_weights(self, epoch):
-- 
2.43.0


From 0ae13228e75cc7e3463459576a9db809799c3f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:31 +0000
Subject: [PATCH 36/54] fix: revert to the weights before training when epoch 0
 is the best epoch

---
 DRecPy/Recommender/recommender_abc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 3827b2a..772fe42 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -183,6 +183,8 @@ class RecommenderABC(ABC):
             for metric in epoch_callback_ret:
                 self._loss_tracker.add_epoch_callback_result(metric, epoch_callback_ret[metric], 0)
 
+        self._store_epoch_weights()  # epoch 0: weights before training
+
         _iter = range(1, epochs+1)
         if self.verbose:
             _iter = tqdm(range(1, epochs+1), total=epochs, desc='Fitting model...', position=0, leave=True)
@@ -341,7 +343,7 @@ class RecommenderABC(ABC):
         })
 
     def _revert_weights(self, epoch):
-        target_weights = self.epoch_weights[epoch-1]  # convert to 0-based idx
+        target_weights = self.epoch_weights[epoch]
         for model, weights in zip(self.trainable_models, target_weights['trainable_models']):
             model.set_weights(weights)
         for layer, weights in zip(self.trainable_layers, target_weights['trainable_layers']):
@@ -349,7 +351,7 @@ class RecommenderABC(ABC):
         for variable, weights in zip(self.trainable_weights, target_weights['trainable_weights']):
             variable.assign(weights)
 
-        self._info(f'Network weights reverted from epoch {len(self.epoch_weights)} to epoch {epoch}.')
+        self._info(f'Network weights reverted from epoch {len(self.epoch_weights) - 1} to epoch {epoch}.')
 
     def predict(self, user_id, item_id, skip_errors=False, **kwds):
         """Performs a prediction using the provided user_id and item_id.
-- 
2.43.0


From 93dd18d1279aabd1e8baf0c2179c58d4f9c87488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:31 +0000
Subject: [PATCH 37/54] fix: fitting a model again starts from newly registered
 variables

---
 DRecPy/Recommender/recommender_abc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 772fe42..65854b4 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -147,6 +147,12 @@ class RecommenderABC(ABC):
 
         self._loss_tracker = LossTracker()
 
+        if not self.fitted:
+            self._initial_trainables = (self.trainable_weights, self.trainable_layers, self.trainable_models)
+        # discard the variables registered and the weights stored by a previous fit
+        self.trainable_weights, self.trainable_layers, self.trainable_models = map(list, self._initial_trainables)
+        self.epoch_weights = []
+
         self._log_initial_info()
 
         self._info('Creating auxiliary structures...')
-- 
2.43.0


From 73d8531a6cce94bdaecbe9f8f0413e7829c0eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:49 +0000
Subject: [PATCH 38/54] fix: fit for no epochs when an early stopping rule is
 given

---
 DRecPy/Recommender/recommender_abc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 65854b4..1bf057f 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -190,6 +190,7 @@ class RecommenderABC(ABC):
                 self._loss_tracker.add_epoch_callback_result(metric, epoch_callback_ret[metric], 0)
 
         self._store_epoch_weights()  # epoch 0: weights before training
+        e = 0
 
         _iter = range(1, epochs+1)
         if self.verbose:
-- 
2.43.0


From fd9cfa2840c881a3fa54a43d7cc2ac551bfeb315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:34 +0000
Subject: [PATCH 39/54] fix: rank items without neighbour interactions by their
 average when averages are requested

---
 DRecPy/Recommender/Baseline/user_knn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/Baseline/user_knn.py b/DRecPy/Recommender/Baseline/user_knn.py
index 7803dbf..d6eed57 100644
--- a/DRecPy/Recommender/Baseline/user_knn.py
+++ b/DRecPy/Recommender/Baseline/user_knn.py
@@ -72,13 +72,12 @@ class UserKNN(BaseKNN):
             rated_items = self.interaction_dataset.select(f'uid == {uid}').values_list('iid', to_list=True)
             iids = iids.difference(set(rated_items))
 
-        tmp_iid_info = dict()
+        tmp_iid_info = {iid: ([], []) for iid in iids}
 
         for similarity, neighbour in self._neighbours[uid]:
             neighbour_records = self.interaction_dataset.select(f'uid == {neighbour}')
             for iid, interaction in neighbour_records.values(['iid', 'interaction'], to_list=True):
                 if iid not in iids: continue
-                if iid not in tmp_iid_info: tmp_iid_info[iid] = ([], [])
                 tmp_iid_info[iid][0].append(interaction)
                 tmp_iid_info[iid][1].append(similarity)
 
-- 
2.43.0


From cf0dbbd00db43e22250aaa1525a9cd534bb67e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:34 +0000
Subject: [PATCH 40/54] fix: Caser only ranks the requested items when novelty
 is not requested

---
 DRecPy/Recommender/caser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index b816bb8..898c71f 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -135,7 +135,8 @@ class Caser(RecommenderABC):
 
         all_items = list(range(self.n_items))
         predictions = self._predict_batch_aux([uid], [user_iids[-self.L:]], [all_items])[0]
-        item_preds = list(zip(predictions, all_items))
+        ranked_iids = set(iids)
+        item_preds = [(pred, item) for pred, item in zip(predictions, all_items) if item in ranked_iids]
 
         if novelty:
             user_iids_set = set(user_iids)
-- 
2.43.0


From 64e6c9cc6986504cdd74897e96e5c9e3e22f8e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:34 +0000
Subject: [PATCH 41/54] fix: discard the similarities of a previous fit when a
 neighbourhood model is fitted again

---
 DRecPy/Recommender/Baseline/base_knn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DRecPy/Recommender/Baseline/base_knn.py b/DRecPy/Recommender/Baseline/base_knn.py
index 22867e7..4a2bca9 100644
--- a/DRecPy/Recommender/Baseline/base_knn.py
+++ b/DRecPy/Recommender/Baseline/base_knn.py
@@ -73,6 +73,9 @@ class BaseKNN(RecommenderABC, ABC):
         self._neighbours = dict()
 
     def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
+        self._similarities = dict()
+        self._neighbours = dict()
+
         self._info('Computing similarity matrix...')
         self._compute_similarities()
 
-- 
2.43.0


From 9873f8eeabbb4c627ae02d8e5245a016771d1e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:34 +0000
Subject: [PATCH 42/54] fix: predict nothing for unknown users or items when
 errors are skipped

---
 DRecPy/Recommender/recommender_abc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 1bf057f..1d255d3 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -383,6 +383,8 @@ class RecommenderABC(ABC):
         try:
             uid = self.interaction_dataset.user_to_uid(user_id)
             iid = self.interaction_dataset.item_to_iid(item_id)
+            if uid is None or iid is None:
+                raise Exception(f'Failed to predict(user_id={user_id}, item_id={item_id}): unknown user or item.')
             prediction = self._predict(uid, iid, **kwds)
             if prediction is None:
                 raise Exception(f'Failed to predict(user_id={user_id}, item_id={item_id}): None was returned.')
-- 
2.43.0


From 009396ec66d138d25ceb42f5cde0e3e21f5a8ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:37 +0000
Subject: [PATCH 43/54] fix: fit neighbourhood models on in-memory datasets
 with fractional interactions

---
 DRecPy/Recommender/Baseline/item_knn.py | 2 +-
 DRecPy/Recommender/Baseline/user_knn.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/Baseline/item_knn.py b/DRecPy/Recommender/Baseline/item_knn.py
index 1b38355..fba92c6 100644
--- a/DRecPy/Recommender/Baseline/item_knn.py
+++ b/DRecPy/Recommender/Baseline/item_knn.py
@@ -23,7 +23,7 @@ class ItemKNN(BaseKNN):
         item_rated_users = {}
         interactions, uids, iids = [], [], []
         for record in self.interaction_dataset.values():
-            u, i, r = record['uid'], record['iid'], record['interaction']
+            u, i, r = int(record['uid']), int(record['iid']), record['interaction']
             interactions.append(r)
             uids.append(u)
             iids.append(i)
diff --git a/DRecPy/Recommender/Baseline/user_knn.py b/DRecPy/Recommender/Baseline/user_knn.py
index d6eed57..5244072 100644
--- a/DRecPy/Recommender/Baseline/user_knn.py
+++ b/DRecPy/Recommender/Baseline/user_knn.py
@@ -23,7 +23,7 @@ class UserKNN(BaseKNN):
         user_rated_items = {}
         interactions, uids, iids = [], [], []
         for record in self.interaction_dataset.values():
-            u, i, r = record['uid'], record['iid'], record['interaction']
+            u, i, r = int(record['uid']), int(record['iid']), record['interaction']
             interactions.append(r)
             uids.append(u)
             iids.append(i)
-- 
2.43.0


From 69e2f2ca56bc9e31f9e49c750433d3bf6de25dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:42 +0000
Subject: [PATCH 44/54] fix: keep database files of the user whose path looks
 like a temporary one

---
 DRecPy/Dataset/db_dataset.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 0da551d..588116e 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -19,6 +19,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     _open_value_generators = set()  # a set containing the still open value generators (not fully read or not GCed)
     _shared_db_instances = dict()  # maps the db file paths to a list of object ids currently using it
     _shared_db_table_instances = dict()  # maps the db file path + table name to a list of object ids currently using it
+    _temp_db_paths = set()  # paths of the temporary db files created by this process
     _opt_ratio_threshold = 0.8  # after at least a 20% reduction between old and new states
     _opt_n_query_threshold = 3  # only check if should optimize after X queries w/o optimize
     _opt_n_rows_threshold = 5000  # only optimize if the row diff between states is at least X
@@ -401,7 +402,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         Returns:
             None.
         """
-        if len(path) == 0 and '.tmp.' in self._db_path:
+        if len(path) == 0 and self._is_temp_db():
             raise Exception('No save path was specified.')
 
         if len(path) == 0: path = self._db_path
@@ -608,7 +609,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._shared_db_instances[self._db_path].remove(id(self))
             if len(self._shared_db_instances[self._db_path]) == 0:
                 del self._shared_db_instances[self._db_path]
-                if '.tmp.' in self._db_path:
+                if self._is_temp_db():
+                    self._temp_db_paths.remove(self._db_path)
                     remove(self._db_path)
                     unregister_temp_file(self._db_path)
 
@@ -693,7 +695,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         # open db connection and create table
         self._col_types = infer_col_types(first_line)
-        self._open_connection(join(data_path(), f'interactions_{id(self)}.{str(random.random()).split(".")[1]}.tmp.sqlite'))
+        temp_path = join(data_path(), f'interactions_{id(self)}.{str(random.random()).split(".")[1]}.tmp.sqlite')
+        self._temp_db_paths.add(temp_path)
+        self._open_connection(temp_path)
         self._build_table(self._open_cursor())
         self._n_rows = 0
 
@@ -806,9 +810,13 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 and len(self._open_value_generators) == 0:
             self._optimize_states()
 
+    def _is_temp_db(self):
+        """Returns True if the current db file is a temporary one, whose path might be contained in user provided paths."""
+        return self._db_path in self._temp_db_paths
+
     def _is_persisted_table(self):
         """Returns True if the active table is the one of a saved database file, and not of a temporary one."""
-        return '.tmp.' not in self._db_path and self._active_table == 'interactions'
+        return not self._is_temp_db() and self._active_table == 'interactions'
 
     def _clear_vec_caches(self):
         """Discards the cached interaction vectors, and must be called whenever the current records change."""
-- 
2.43.0


From e09ee51743fc1225698a2abeb0c8c97f31dcbc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:48 +0000
Subject: [PATCH 45/54] fix: transform interactions of in-memory datasets whose
 interaction matrix does not fit in memory

---
 DRecPy/Dataset/mem_dataset.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 25da556..635d6a9 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -370,10 +370,8 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             self._df = self._df.copy()
             self._df[column] = self._df[column].apply(function)
 
-            if column == 'interaction' and self._cached_interaction_matrix is not None:
-                self._cached_interaction_matrix = None
-                self._cached_trans_interaction_matrix = None
-                self._build_interaction_matrix()
+            if column == 'interaction':
+                self._clear_interaction_matrix()  # built again on the next request, if it fits in memory
 
         except Exception as e:
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
-- 
2.43.0


From 9c1207fb009e13f2354cff5f7cb4eb72f8c1b71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 46/54] fix: compare each prediction of CDAE and DMF with its
 own target

---
 DRecPy/Recommender/cdae.py | 2 +-
 DRecPy/Recommender/dmf.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/cdae.py b/DRecPy/Recommender/cdae.py
index a908503..ed262ed 100644
--- a/DRecPy/Recommender/cdae.py
+++ b/DRecPy/Recommender/cdae.py
@@ -76,7 +76,7 @@ class CDAE(RecommenderABC):
         return tf.sigmoid(tf.matmul(hidden_layer, self.W_) + self.b_)  # K x I
 
     def _compute_batch_loss(self, predictions, desired_values, **kwds):
-        return self._loss(desired_values, predictions)
+        return self._loss(tf.convert_to_tensor(desired_values, dtype=tf.float32), tf.concat(predictions, axis=0))
 
     def _compute_reg_loss(self, reg_rate, batch_size, trainable_models, trainable_layers, trainable_weights, **kwds):
         return sum([tf.nn.l2_loss(v) for v in [self.W, self.W_, self.V]]) * reg_rate / batch_size
diff --git a/DRecPy/Recommender/dmf.py b/DRecPy/Recommender/dmf.py
index 33a8b66..7519fd6 100644
--- a/DRecPy/Recommender/dmf.py
+++ b/DRecPy/Recommender/dmf.py
@@ -96,7 +96,7 @@ class DMF(RecommenderABC):
         return predictions, batch_samples['desired_values']
 
     def _compute_batch_loss(self, predictions, desired_values, **kwds):
-        return self._loss(desired_values, predictions)
+        return self._loss(tf.convert_to_tensor(desired_values, dtype=tf.float32), predictions)
 
     def _predict(self, uid, iid, **kwds):
         user_tensors, item_tensors = self._preprocess_input([uid], [iid])
-- 
2.43.0


From eb797c390a25c3c0615442cc3271ba427fb3ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 47/54] fix: train models made of Keras layers, updating all
 weights at once

---
 DRecPy/Recommender/recommender_abc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 1d255d3..d139aee 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -203,7 +203,7 @@ class RecommenderABC(ABC):
                 trainable_weights = self.trainable_weights + \
                                     [layer.trainable_weights for layer in self.trainable_layers] + \
                                     [model.trainable_weights for model in self.trainable_models]
-                for trainable_weight in trainable_weights:
+                for trainable_weight in self.trainable_weights:  # variables of layers and models are watched already
                     tape.watch(trainable_weight)
 
                 loss = self._compute_batch_loss(predictions, desired_values, **kwds) + \
@@ -335,12 +335,12 @@ class RecommenderABC(ABC):
                     for trainable in trainable_layers + trainable_models])
 
     def _update_weights(self, gradients, trainable_weights):
+        grads_and_vars = []
         for gradient, trainable_var in zip(gradients, trainable_weights):
-            if tf.is_tensor(gradient):
-                gradient = [gradient]
-            if tf.is_tensor(trainable_var):
-                trainable_var = [trainable_var]
-            self.optimizer.apply_gradients(zip(gradient, trainable_var))
+            if not isinstance(trainable_var, (list, tuple)):
+                gradient, trainable_var = [gradient], [trainable_var]
+            grads_and_vars.extend(zip(gradient, trainable_var))
+        self.optimizer.apply_gradients(grads_and_vars)  # all at once: the optimizer only knows the variables of its first call
 
     def _store_epoch_weights(self):
         self.epoch_weights.append({
-- 
2.43.0


From 3a3242ae2473cec6e95ec6bfcf648dbf781c551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:28 +0000
Subject: [PATCH 48/54] fix: read accented ids of downloaded datasets as they
 were published

---
 DRecPy/Dataset/integrated_datasets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/integrated_datasets.py b/DRecPy/Dataset/integrated_datasets.py
index 452fda7..b1c737e 100644
--- a/DRecPy/Dataset/integrated_datasets.py
+++ b/DRecPy/Dataset/integrated_datasets.py
@@ -86,7 +86,7 @@ def download_dataset(ds_name):
 
         os.remove(tmp_path)
     else:
-        with open(os.path.join(dataset_path, ds_options.full_file), 'w') as f:
+        with open(os.path.join(dataset_path, ds_options.full_file), 'w', encoding=ds_options.encoding) as f:
             f.write(data.decode(ds_options.encoding))
 
 
@@ -100,7 +100,8 @@ def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, ve
         download_dataset(ds_name)
 
     if is_generated:
-        return InteractionDataset(path, delimiter=',', columns=ds_options.columns, encoding=ds_options.encoding,
+        # generated files are saved with the default encoding, whatever the encoding of the downloaded files
+        return InteractionDataset(path, delimiter=',', columns=ds_options.columns,
                                   in_memory=not force_out_of_memory, verbose=verbose, **kwds)
     else:
         return InteractionDataset(path, delimiter=ds_options.delimiter, columns=ds_options.columns,
-- 
2.43.0


From ce26a04ea4d6b733eba58f4bf61ddcc71187672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:39 +0000
Subject: [PATCH 49/54] fix: train and use Caser models with fewer horizontal
 filters than the sequence length

---
 DRecPy/Recommender/caser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index 898c71f..8272016 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -105,7 +105,7 @@ class Caser(RecommenderABC):
         out_h = []
         for conv_h in self.convs_h:
             conv_output = self.act_h(conv_h(items_embeddings))
-            out_h.append(tf.squeeze(tf.nn.max_pool1d(conv_output, self.n_h, self.n_h, 'SAME'), 1))
+            out_h.append(tf.reduce_max(conv_output, 1))  # max over all positions of the sequence
 
         out_h = tf.concat(out_h, 1)
         concat_out = tf.concat([out_v, out_h], 1)
-- 
2.43.0


From eade92354e76811e117c0c4b625abfaca886da31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:22 +0000
Subject: [PATCH 50/54] fix: accept quoted values containing spaces or commas
 in queries

---
 DRecPy/Dataset/dataset_abc.py | 16 ++++++++++++++++
 DRecPy/Dataset/db_dataset.py  |  4 ++--
 DRecPy/Dataset/mem_dataset.py |  4 ++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/dataset_abc.py b/DRecPy/Dataset/dataset_abc.py
index ba898ae..cda9c9d 100644
--- a/DRecPy/Dataset/dataset_abc.py
+++ b/DRecPy/Dataset/dataset_abc.py
@@ -347,6 +347,22 @@ class InteractionDatasetABC(ABC):
 
         return columns
 
+    @staticmethod
+    def _split_query(query):
+        """Splits a query into its conditions, which are separated by the commas that aren't inside a quoted value."""
+        segments, start, quote, escaped = [], 0, None, False
+        for i, char in enumerate(query):
+            if escaped: escaped = False
+            elif quote is not None:
+                if char == '\\': escaped = True
+                elif char == quote: quote = None
+            elif char in ('"', "'"): quote = char
+            elif char == ',':
+                segments.append(query[start:i])
+                start = i + 1
+        segments.append(query[start:])
+        return segments
+
     def _log(self, msg):
         if not self.verbose: return
         print(f'[{self.__class__.__name__}] {msg}')
diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 588116e..e5eee48 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -742,12 +742,12 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
     def _parse_query(self, query):
         query = str(query)
-        query_segments = query.split(',')
+        query_segments = self._split_query(query)
         query_conditions = []
 
         for segment in query_segments:
             segment = segment.strip()
-            column, operator, value = segment.split(" ")
+            column, operator, value = segment.split(" ", 2)
             assert column is not None or operator is not None or value is not None, \
                 'Invalid get query, must be in form: column1 operator1 value1, column2 operator2 value2, ...'
             assert column in self.columns, 'Unexpected column "{c}".'.format(c=column)
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 635d6a9..97dede6 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -401,14 +401,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
     """ Auxiliary methods """
     def _apply_query(self, query, in_place=True):
         query = str(query)
-        query_segments = query.split(',')
+        query_segments = self._split_query(query)
 
         condition_vector = None
 
         for idx, segment in enumerate(query_segments):
             segment = segment.strip()
             try:
-                column, operator, value = segment.split(" ")
+                column, operator, value = segment.split(" ", 2)
             except ValueError:
                 raise Exception(
                     f'Query segment failed to be parsed. Check if there are no missing spaces or invalid characters.'
-- 
2.43.0


From 0e96838ad5b68cb37cb5dc121085531ac6e9970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:56 +0000
Subject: [PATCH 51/54] fix: keep texts such as "NA" or "null" when importing
 into memory

---
 DRecPy/Dataset/mem_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 97dede6..9f41bbb 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -36,7 +36,9 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             col_names = [col if col is not None else f'skip_col_{i}' for i, col in enumerate(projected_cols)]
             skip_rows = 1 if has_header else 0
 
+            # only empty fields are missing values (by default, so are texts such as "NA" or "null")
             self._df = pd.read_csv(path, delimiter=delimiter, names=col_names, encoding=kwds.get('encoding'),
+                                   keep_default_na=False, na_values=[''],
                                    skiprows=skip_rows, usecols=use_cols)
             self.columns = [col for col in self.columns if col is not None]  # remove any skip cols
         else:
-- 
2.43.0


From 030568029843db1e8136c4cce793fb637b48bef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:58 +0000
Subject: [PATCH 52/54] fix: allow saving CDAE and DMF models

---
 DRecPy/Sampler/point_sampler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DRecPy/Sampler/point_sampler.py b/DRecPy/Sampler/point_sampler.py
index bc62f0d..28f940b 100644
--- a/DRecPy/Sampler/point_sampler.py
+++ b/DRecPy/Sampler/point_sampler.py
@@ -29,6 +29,7 @@ class PointSampler:
         self.interaction_dataset = interaction_dataset
         self.neg_ratio = neg_ratio
         self.interaction_threshold = interaction_threshold
+        self.seed = seed
         self.rng = random.Random(seed)
 
         self.null_pair_gen = self.interaction_dataset.null_interaction_pair_generator(
@@ -41,6 +42,10 @@ class PointSampler:
                 f'interaction >= {interaction_threshold}', seed=seed
             )
 
+    def __reduce__(self):
+        # generators cannot be pickled: rebuild the sampler from its arguments
+        return type(self), (self.interaction_dataset, self.neg_ratio, self.interaction_threshold, self.seed)
+
     def sample(self, n=16):
         """Sample positive and negative interaction pairs according to the set definitions of the PointSampler instance.
 
-- 
2.43.0


From bde9b2da703b00bfb83f1862b0c87f75d7acc4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:21 +0000
Subject: [PATCH 53/54] fix: suspended random generators of database datasets
 no longer keep the database locked

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index e5eee48..92fb885 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -187,7 +187,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
             c.execute(new_state)
             curr_idx = 0
-            for row in c:
+            for row in c.fetchall():  # a partially read cursor would keep the database locked until the next draw
                 if curr_idx == chosen_idx:
                     chosen_record = {k: v for k, v in zip(self.columns, row)}
                     break
-- 
2.43.0


From d8e7d4340be37a287f833b184347c46f7b67aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:21 +0000
Subject: [PATCH 54/54] fix: abandoned iterators of database datasets no longer
 keep the database locked until garbage collection

---
 DRecPy/Dataset/db_dataset.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 92fb885..951e8d8 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -286,20 +286,20 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             def __init__(self, open_value_generators, row_to_record_fn):
                 self.open_value_generators = open_value_generators
                 self.row_to_record_fn = row_to_record_fn
-                self.iter = self.__iter__()
                 self.removed_gen = False
                 open_value_generators.add(c)
 
             def __iter__(self):
-                for row in c:
-                    yield self.row_to_record_fn(row, columns, to_list)
-
-                self.removed_gen = True
-                self.open_value_generators.remove(c)
-                c.close()
+                return self
 
             def __next__(self):
-                return next(self.iter)
+                # not implemented with a generator: its reference to self would keep abandoned instances (and their
+                # lock on the database) alive until the next garbage collection
+                row = None if self.removed_gen else next(c, None)
+                if row is None:
+                    self.close()
+                    raise StopIteration
+                return self.row_to_record_fn(row, columns, to_list)
 
             def __del__(self):
                 if not self.removed_gen:
-- 
2.43.0

