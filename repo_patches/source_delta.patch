From b506117a02cf89ebf8a83beb45fb35fd70255483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 01/79] fix: include column dtypes in the content hash of data
 frames

Two data frames with equal values but different column types (e.g. an int64
and a float64 column) had the same content id, so calls shared results.
---
 mandala/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mandala/utils.py b/mandala/utils.py
index bee3cac..4c3833c 100644
--- a/mandala/utils.py
+++ b/mandala/utils.py
@@ -82,6 +82,8 @@ def get_content_hash(obj: Any) -> str:
             "columns": obj.columns,
             "values": obj.values,
             "index": obj.index,
+            # `values` converts all columns to a common type
+            "dtypes": list(obj.dtypes),
         }
     result = joblib.hash(obj)  # this hash is canonical wrt python collections
     if result is None:
-- 
2.43.0


From 0eb5f49288a1bfec567cbc0b4e4dd094c87bb455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 02/79] fix: find saved calls by content in the database, not
 only in the cache

The lookup by content id queried the column of reference history ids, so after
reopening a storage or clearing its cache, calls on inputs of equal content but
different history were executed again. The code behind it also passed the
connection in a way the transaction decorator does not accept.
---
 mandala/storage_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 95f0723..d7a7b63 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -53,6 +53,7 @@ def transaction(method):  # transaction decorator for classes with a `conn` meth
         if kwargs.get("conn") is not None:  # already in a transaction
             logging.debug("Folding into existing transaction")
             return method(self, *args, **kwargs)
+        kwargs.pop("conn", None)  # `conn=None` is the same as no connection
 
         # 10 attempts with exponential backoff, max. time is ~17 minutes
         max_attempts = 10
@@ -640,7 +641,7 @@ class SQLiteCallStorage:
         )
         rows = cursor.fetchall()
         hid = rows[0][0]
-        return self.get_data(hid, conn)
+        return self.get_data(hid, conn=conn)
 
     ### provenance queries
     @transaction
@@ -738,7 +739,7 @@ class CachedCallStorage:
         if self.cache.exists_content(cid):
             return True
         else:
-            res = self.persistent.exists_ref_hid(cid)
+            res = self.persistent.exists_content(cid)
             return res
 
     def get_data(
@@ -755,7 +756,7 @@ class CachedCallStorage:
         if self.cache.exists_content(cid):
             return self.cache.get_data_content(cid)
         else:
-            return self.persistent.get_data_content(cid, conn)
+            return self.persistent.get_data_content(cid, conn=conn)
 
     def get_creator_hids(self, hids: Iterable[str]) -> Set[str]:
         raise NotImplementedError()
-- 
2.43.0


From 757375f7f770bfa3f688cd26e6b77b8871f145cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 03/79] fix: a failed commit must not forget what was
 uncommitted

The sets of uncommitted keys were cleared while the transaction was still
open, so when it failed (e.g. on a value that cannot be saved), a later commit
saved only a part of the data, with calls referring to missing values. On
in-memory databases the commit was not a transaction at all.
---
 mandala/storage.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index a3727cc..0fd9b7e 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -208,13 +208,22 @@ class Storage:
             self.preload_atoms()
 
     def commit(self):
-        with self.conn() as conn:
-            self.atoms.commit(conn=conn)
-            self.shapes.commit(conn=conn)
-            self.ops.commit(conn=conn)
-            if self.versioned:
-                self.sources.persistent.set(key='versioner', value=self.sources.cache['versioner'], conn=conn)
-            self.calls.commit(conn=conn)
+        dirty_sets = [self.atoms.dirty_keys, self.shapes.dirty_keys, self.ops.dirty_keys, self.calls.dirty_hids]
+        dirty_before = [dirty.copy() for dirty in dirty_sets]
+        try:
+            with self.conn() as conn:
+                conn.execute("BEGIN IMMEDIATE")
+                self.atoms.commit(conn=conn)
+                self.shapes.commit(conn=conn)
+                self.ops.commit(conn=conn)
+                if self.versioned:
+                    self.sources.persistent.set(key='versioner', value=self.sources.cache['versioner'], conn=conn)
+                self.calls.commit(conn=conn)
+        except BaseException:
+            # nothing was persisted, so everything is still uncommitted
+            for dirty, before in zip(dirty_sets, dirty_before):
+                dirty |= before
+            raise
 
 
     def __repr__(self):
-- 
2.43.0


From 607233323b2d30e49aad43dbe756172eb930965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 04/79] fix: retry transactions only on contention, and roll
 back before retrying

Any operational error (a full disk, a read-only file, ...) was retried for 17
minutes and then replaced by a misleading one; on in-memory databases the open
transaction made every retry fail as well.
---
 mandala/storage_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index d7a7b63..4d47103 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -67,6 +67,9 @@ def transaction(method):  # transaction decorator for classes with a `conn` meth
                 conn.commit()
                 return res
             except sqlite3.OperationalError as e:
+                conn.rollback()
+                if "locked" not in str(e) and "busy" not in str(e):
+                    raise e # only contention is worth retrying
                 delay = base_delay * (2 ** attempt)
                 logging.info(f'Transaction failed with error: {e}. Retrying in {delay:.2f} seconds...')
                 time.sleep(delay)
-- 
2.43.0


From a5ccf2cdb4f697bff33431d2cd2712d2e132b696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 05/79] fix: allow a call to be saved by another process in the
 meantime

When two processes computed the same call, committing the second one violated
the primary key of the calls table and lost the whole context's results.
---
 mandala/storage_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 4d47103..39044df 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -551,14 +551,14 @@ class SQLiteCallStorage:
             hid = call_data["input_hids"][k]
             cid = call_data["input_cids"][k]
             conn.execute(
-                f"INSERT INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
+                f"INSERT OR IGNORE INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
                 (call_data["hid"], k, "in", call_data["cid"], cid, hid, op_name, semantic_version, content_version),
             )
         for k in call_data["output_hids"]:
             hid = call_data["output_hids"][k]
             cid = call_data["output_cids"][k]
             conn.execute(
-                f"INSERT INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
+                f"INSERT OR IGNORE INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
                 (call_data["hid"], k, "out", call_data["cid"], cid, hid, op_name, semantic_version, content_version),
             )
 
-- 
2.43.0


From c70ce8d470f4fe1fc76cd38e4049f41e03a6a685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 06/79] fix: write overflow files atomically

A process killed while writing an overflow file left a truncated file, which
was never written again because the storage is write-once, so the value could
not be loaded or re-saved any more.
---
 mandala/storage_utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 39044df..553b3e5 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -156,7 +156,17 @@ class JoblibDictStorage(DictStorage):
     def set(self, key: str, value: Any) -> None:
         if self.exists(key):
             return # this is a write-once storage
-        joblib.dump(value, self.get_path_for_key(key))
+        # write to a temporary file first: a partially written file would count
+        # as existing
+        path = self.get_path_for_key(key)
+        tmp_path = f"{path}.{uuid.uuid4().hex}.tmp"
+        try:
+            joblib.dump(value, tmp_path)
+            os.replace(tmp_path, path)
+        except BaseException:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
+            raise
     
     def drop(self, key: str) -> None:
         os.remove(self.get_path_for_key(key))
-- 
2.43.0


From 63c26905302fa0d9c02460ea424d80caae41c4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 07/79] fix: leaving a context restores the context around it

---
 mandala/storage.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 0fd9b7e..6608a75 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -126,6 +126,8 @@ class Storage:
         self._exit_hooks = []
         # stack of modes
         self._mode_stack = []
+        # the contexts that were active when each of the modes was entered
+        self._context_stack = []
         self._next_mode = 'run'
         self._allow_new_calls = True
     
@@ -1216,14 +1218,28 @@ class Storage:
         return self
 
     def __enter__(self) -> "Storage":
+        self._context_stack.append(Context.current_context)
         Context.current_context = Context(storage=self)
         self._mode_stack.append(self._next_mode)
-        if self.versioned:
-            versioner, code_state = self.sync_code()
-            self.cached_versioner = versioner
-            self.code_state = code_state
+        try:
+            if self.versioned:
+                versioner, code_state = self.sync_code()
+                self.cached_versioner = versioner
+                self.code_state = code_state
+        except BaseException:
+            self._leave_context()
+            raise
         return self
 
+    def _leave_context(self):
+        # restore the context and mode that surrounded this one
+        Context.current_context = self._context_stack.pop()
+        _ = self._mode_stack.pop()
+        if self._mode_stack:
+            self._next_mode = self._mode_stack[-1]
+        else:
+            self._next_mode = 'run'
+
     # def __exit__(self, exc_type, exc_value, traceback) -> None:
     #     Context.current_context = None
     #     try:
@@ -1249,20 +1265,15 @@ class Storage:
         except Exception as e:
             raise e
         finally:
-            if len(self._mode_stack) == 1: # this is the topmost level
-                Context.current_context = None
+            is_topmost = len(self._mode_stack) == 1
+            self._leave_context()
+            if is_topmost:
                 self.cached_versioner = None
                 self.code_state = None
 
                 for hook in self._exit_hooks:
                     hook(self)
 
-            _ = self._mode_stack.pop()
-            if self._mode_stack:
-                self._next_mode = self._mode_stack[-1]
-            else:
-                self._next_mode = 'run'
-
 
 
 class noop:
-- 
2.43.0


From ca667aedb1b45cf794dc5b5ae9779457ebc116a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 08/79] fix: use the current call cache after the caches were
 cleared

---
 mandala/storage.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 6608a75..1aa2313 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -43,7 +43,6 @@ class Storage:
 
         self.call_storage = SQLiteCallStorage(db=self.db, table_name="calls")
         self.calls = CachedCallStorage(persistent=self.call_storage)
-        self.call_cache = self.calls.cache
 
         self.overflow_dir = overflow_dir
         self.overflow_threshold_MB = overflow_threshold_MB
@@ -147,6 +146,11 @@ class Storage:
             "track_globals": self._track_globals,
         }
     
+    @property
+    def call_cache(self) -> InMemCallStorage:
+        # clearing the cache replaces this object
+        return self.calls.cache
+
     def conn(self) -> sqlite3.Connection:
         return self.db.conn()
 
-- 
2.43.0


From 8b4c694154e679f7ad9a32ff8df199da5ff32dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 09/79] fix: dropping calls handles calls that are not
 committed yet

---
 mandala/storage.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 1aa2313..a3be7b4 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -426,21 +426,19 @@ class Storage:
         hit a false positive.
         """
         # figure out what we're given    
-        if all(isinstance(c, Call) for c in calls_or_hids):
-            hids = [c.hid for c in calls_or_hids]
-        else:
-            hids = list(calls_or_hids)
-        hids = set(hids)
+        hids = {c.hid if isinstance(c, Call) else c for c in calls_or_hids}
         if delete_dependents:
-            _, dependent_call_hids = self.call_storage.get_dependents(
-                ref_hids=set(), call_hids=hids, conn=conn,
+            # the calls may be committed, or only in the cache
+            all_calls_df = pd.concat([self.call_storage.get_df(conn=conn), self.call_cache.df])
+            _, dependent_call_hids = InMemCallStorage(all_calls_df).get_dependents(
+                ref_hids=set(), call_hids=hids,
             )
             hids |= dependent_call_hids
         num_dropped_cache = 0
         num_dropped_persistent = 0
         for hid in hids:
             if self.call_cache.exists(hid):
-                self.call_cache.drop(hid)
+                self.calls.drop(hid) # also forgets that it is uncommitted
                 num_dropped_cache += 1
         for hid in hids:
             if self.call_storage.exists(hid, conn=conn):
-- 
2.43.0


From 02f58518400fcafa1cb3109a8cc41b574211f7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 10/79] fix: preloading keeps calls and values that are not
 committed yet

---
 mandala/storage.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index a3be7b4..f49d14e 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -194,17 +194,23 @@ class Storage:
 
     def preload_calls(self):
         df = self.call_storage.get_df()
+        # keep the calls that are only in the cache so far
+        uncommitted = self.calls.dirty_hids - set(df.index.get_level_values(0))
+        if uncommitted:
+            cached_df = self.call_cache.df
+            cached_df = cached_df[cached_df.index.get_level_values(0).isin(uncommitted)]
+            df = pd.concat([df, cached_df]) if len(df) > 0 else cached_df
         self.call_cache.df = df
-        self.call_cache.call_hids = set(df.index.levels[0].unique())
+        self.call_cache.call_hids = set(df.index.get_level_values(0).unique())
     
     def preload_shapes(self):
-        self.shapes.cache = self.shapes.persistent.load_all()
+        self.shapes.cache = {**self.shapes.persistent.load_all(), **self.shapes.cache}
     
     def preload_ops(self):
-        self.ops.cache = self.ops.persistent.load_all()
+        self.ops.cache = {**self.ops.persistent.load_all(), **self.ops.cache}
 
     def preload_atoms(self):
-        self.atoms.cache = self.atoms.persistent.load_all()
+        self.atoms.cache = {**self.atoms.persistent.load_all(), **self.atoms.cache}
     
     def preload(self, lazy: bool = True):
         self.preload_calls()
-- 
2.43.0


From b4097c8702b4242030bbfaad2b2a2b351f9c7895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 11/79] fix: pass arguments to the function as they were bound

A keyword argument named like the **kwargs parameter was nested in itself.
---
 mandala/storage.py | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index f49d14e..a4ed095 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -795,7 +795,6 @@ class Storage:
         storage_inputs: Dict[str, Any],
         storage_tps: Dict[str, Type],
         bound_arguments: Optional[inspect.BoundArguments] = None,
-        kwarg_keys: Optional[List[str]] = None,
     ) -> Tuple[Dict[str, Ref], Call, List[Call]]:
         """
         Main function to call an op, operating on the representations used
@@ -862,23 +861,8 @@ class Storage:
             # cids_before = {k: v.cid for k, v in wrapped_inputs.items()}
             # raw_values = {k: self.unwrap(v) for k, v in wrapped_inputs.items()}
             ### we must run the function
-            kwargs = {}
-            if kwarg_keys is not None:
-                for k in kwarg_keys:
-                    if k in bound_arguments.arguments:
-                        kwargs[k] = bound_arguments.arguments[k]
-                        del bound_arguments.arguments[k]
-                    else: # must be a var keyword
-                        # figure out the name of the var keyword
-                        var_keyword = [p for p in sig.parameters.values() if p.kind == p.VAR_KEYWORD]
-                        var_keyword = var_keyword[0] if len(var_keyword) > 0 else None
-                        assert var_keyword is not None
-                        varkwargs = bound_arguments.arguments[var_keyword.name]
-                        kwargs[k] = varkwargs[k]
-                        del varkwargs[k]
-            args, leftover_kwargs = bound_arguments.args, bound_arguments.kwargs
+            args, kwargs = bound_arguments.args, bound_arguments.kwargs
             args = self.unwrap(args)
-            kwargs.update(leftover_kwargs)
             kwargs = self.unwrap(kwargs)
             # replace any ValuePointer instances with their underlying objects
             kwargs = {k: v.obj if isinstance(v, ValuePointer) else v for k, v in kwargs.items()}  
@@ -1182,7 +1166,6 @@ class Storage:
         self, op: Op, args, kwargs, config: Optional[dict] = None
     ) -> Union[Tuple[Ref, ...], Ref]:
         config = {} if config is None else config
-        kwarg_keys = set(kwargs.keys())
         bound_arguments, storage_inputs, storage_annotations = self.parse_args(
             sig=inspect.signature(op.f),
             args=args,
@@ -1209,7 +1192,6 @@ class Storage:
                 storage_inputs = storage_inputs,
                 bound_arguments = bound_arguments,
                 storage_tps=storage_tps,
-                kwarg_keys=kwarg_keys,
             )
             if config.get("save_calls", False):
                 self.save_call(main_call)
-- 
2.43.0


From fcd4e10da68bd8af2257711173244658fdbfc6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 12/79] fix: unwrap special argument values when called outside
 a context

---
 mandala/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandala/model.py b/mandala/model.py
index 6e227e4..e44c88d 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -243,6 +243,10 @@ class Op:
 
     def __call__(self, *args, **kwargs) -> Union[Tuple[Ref, ...], Ref]:
         if Context.current_context is None:  # act as noop
+            bound_arguments = inspect.signature(self.f).bind(*args, **kwargs)
+            bound_arguments.apply_defaults()
+            args = tuple([unwrap_special_value(arg) for arg in bound_arguments.args])
+            kwargs = {k: unwrap_special_value(v) for k, v in bound_arguments.kwargs.items()}
             return self.f(*args, **kwargs)
         else:
             storage = Context.current_context.storage
-- 
2.43.0


From 4e077ede581e04286bd12cc656f24b5f035cf7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 13/79] fix: a value pointer must not share its content id with
 a string

---
 mandala/model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mandala/model.py b/mandala/model.py
index e44c88d..22bb363 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -306,9 +306,11 @@ def wrap_atom(obj: Any, history_id: Optional[str] = None) -> AtomRef:
         assert history_id is None
         return obj
     if isinstance(obj, ValuePointer):
-        # we never directly hash the object, but rather the id
-        uid = get_content_hash(obj.id) 
-        return AtomRef(cid=uid, hid=uid, in_memory=True, obj=ValuePointer(id=obj.id, obj=None))
+        # we never directly hash the object, but rather the id. Hash the pointer
+        # and not the bare id, which is the content of a plain string
+        pointer = ValuePointer(id=obj.id, obj=None)
+        uid = get_content_hash(pointer)
+        return AtomRef(cid=uid, hid=uid, in_memory=True, obj=pointer)
     uid = get_content_hash(obj)
     if history_id is None:
         history_id = get_content_hash(uid)
-- 
2.43.0


From 79bdbdab393adb0ff5765405c74f8db4f9e9a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 14/79] fix: unwrapping arguments keeps named tuples and other
 container subclasses

---
 mandala/model.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/mandala/model.py b/mandala/model.py
index 22bb363..99dce15 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -394,9 +394,27 @@ class SetRef(Ref):
         return elt in self.obj
 
 
+def _contains_refs(obj: Any) -> bool:
+    if isinstance(obj, (Ref, RefCollection)):
+        return True
+    elif isinstance(obj, (list, tuple, set)):
+        return any(_contains_refs(elt) for elt in obj)
+    elif isinstance(obj, dict):
+        return any(_contains_refs(v) for v in obj.values())
+    else:
+        return False
+
+
 def recurse_on_ref_collections(f: Callable, obj: Any, **kwargs: Any) -> Any:
     if isinstance(obj, AtomRef):
         return f(obj, **kwargs)
+    elif (
+        isinstance(obj, (list, dict, tuple, set))
+        and type(obj) not in (list, dict, tuple, set)
+        and not _contains_refs(obj)
+    ):
+        # preserve instances of subclasses, such as named tuples
+        return obj
     elif isinstance(obj, (list, ListRef)):
         return [recurse_on_ref_collections(f, elt, **kwargs) for elt in obj]
     elif isinstance(obj, (dict, DictRef)):
-- 
2.43.0


From f4b02ea1203d5060a3f3c17cc67b6137742ca66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 15/79] fix: loading a value does not make it uncommitted

---
 mandala/storage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index a4ed095..8b3b943 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -508,9 +508,8 @@ class Storage:
         # TODO: implement `cache = False` in `load_ref`
         assert isinstance(obj, AtomRef)
         if not obj.in_memory:
+            # this also caches the serialized value
             ref = self.load_ref(hid=obj.hid, in_memory=False)
-            if cache:
-                self.atoms[obj.cid] = serialize(ref.obj)
             return ref.obj
         else:
             return obj.obj
-- 
2.43.0


From 06af23f59567f169bf295da061559f491f0295c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 16/79] fix: loading a list loads its elements

---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 8b3b943..e076c49 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -304,7 +304,7 @@ class Storage:
             obj = []
             for i, elt in enumerate(shape):
                 obj.append(self.load_ref(elt.hid, in_memory=in_memory))
-            return shape.attached(obj=shape.obj)
+            return shape.attached(obj=obj)
         elif isinstance(shape, DictRef):
             obj = {}
             for k, v in shape.items():
-- 
2.43.0


From 83e51cb9558e8badf3fcb698d8da97d37ae41c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 17/79] fix: save the versioner under its own key after syncing
 a component

---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index e076c49..f5dc3a2 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -989,7 +989,7 @@ class Storage:
             is_semantic_change=is_semantic_change,
             code_state=code_state,
         )
-        self.sources["versioned"] = versioner
+        self.sources["versioner"] = versioner
         return result
 
     @transaction
-- 
2.43.0


From c13b4cb3dcafa03e7bda122beb8dcf10937c5c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 18/79] fix: a call found by content gets the right elements
 and structural calls

---
 mandala/storage.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index f5dc3a2..1504d36 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -589,6 +589,17 @@ class Storage:
         else:
             raise NotImplementedError
 
+    def get_ref_type(self, ref: Ref) -> Type:
+        # the type of the value of this ref, as far as its structure tells
+        if isinstance(ref, ListRef):
+            elts = list(ref.obj)
+            return ListType(elt=self.get_ref_type(elts[0]) if elts else AtomType())
+        elif isinstance(ref, DictRef):
+            elts = list(ref.values())
+            return DictType(key=AtomType(), val=self.get_ref_type(elts[0]) if elts else AtomType())
+        else:
+            return AtomType()
+
     def construct(self, tp: Type, val: Any) -> Tuple[Ref, List[Call]]:
         """
         Given a target type and a value, construct a `Ref` of the target type,
@@ -691,6 +702,10 @@ class Storage:
             call_data = self.calls.get_data(call_history_id=call_hid)
             logger.debug(f"Found call to {op.name} with hid {call_hid}.")
             return self._get_call_from_data(call_data, in_memory=True)
+        if op.__structural__:
+            # structural calls are cheap to repeat, and doing so gives the 
+            # elements of their outputs the right history IDs
+            return None
         ### if this fails, look up by content ID, and apply the correct history IDs
         call_cid = op.get_call_content_id(
             inputs=inputs, semantic_version=semantic_version
@@ -706,8 +721,7 @@ class Storage:
             output_history_ids = op.get_output_history_ids(call_history_id=call_hid, output_names=list(op.get_ordered_outputs(output_dict=output_names_identity)))
             for k, v in call_prototype.outputs.items():
                 v.hid = output_history_ids[k]
-            for k, v in call_prototype.inputs.items():
-                v.hid = inputs[k].hid
+            call_prototype.inputs = inputs
             return call_prototype
         logger.debug(f"Could not find a call to {op.name} with hid {call_hid} or cid {call_cid}.")
         return None
@@ -840,9 +854,16 @@ class Storage:
             call_hid = call_option.hid
             if not op.__structural__: logger.debug(f"Call to {op.name} with hid {call_hid} already exists.")
             main_call = call_option
-            return main_call.outputs, main_call, input_calls
+            output_calls = []
+            if not self.calls.exists(call_hid):
+                # the call was found by content, so any collections in its
+                # outputs have elements with a different history
+                for k, v in main_call.outputs.items():
+                    main_call.outputs[k], calls = self.destruct(v, tp=self.get_ref_type(v))
+                    output_calls.extend(calls)
+            return main_call.outputs, main_call, input_calls + output_calls
         
-        if not self._allow_new_calls:
+        if not self._allow_new_calls and not op.__structural__:
             # caller should decide how to handle this
             raise RuntimeError(f"Call to {op.name} does not exist and new calls are not allowed.")
 
-- 
2.43.0


From 580c75df92899d24461a2d4bb4bbf7722c8b3895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 19/79] fix: cleaning up references keeps elements of used
 collections and references of uncommitted calls

---
 mandala/storage.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 1504d36..b0b591a 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -484,10 +484,24 @@ class Storage:
         """
         if self.in_context():
             raise NotImplementedError("Method not supported while in a context.")
-        all_hids = set(self.shapes.persistent.keys())
-        df = self.call_storage.get_df()
-        hids_in_calls = df["ref_history_id"].unique()
-        return all_hids - set(hids_in_calls)
+        shapes = {**self.shapes.persistent.load_all(), **self.shapes.cache}
+        # calls may be committed, or only in the cache
+        used_hids = set(self.call_storage.get_df()["ref_history_id"]) | set(self.call_cache.df["ref_history_id"])
+        # the elements of a collection that is used are used too
+        to_visit = [hid for hid in used_hids if hid in shapes]
+        while to_visit:
+            shape = shapes[to_visit.pop()]
+            if isinstance(shape, ListRef):
+                elts = list(shape.obj)
+            elif isinstance(shape, DictRef):
+                elts = list(shape.values())
+            else:
+                elts = []
+            for elt in elts:
+                if elt.hid in shapes and elt.hid not in used_hids:
+                    used_hids.add(elt.hid)
+                    to_visit.append(elt.hid)
+        return shapes.keys() - used_hids
 
     def get_unreferenced_cids(self) -> Set[str]:
         """
@@ -496,10 +510,10 @@ class Storage:
         if self.in_context():
             raise NotImplementedError("Method not supported while in a context.")
         all_cids = set(self.atoms.persistent.keys())
-        df = self.call_storage.get_df()
-        cids_in_calls = df["ref_content_id"].unique()
-        cids_in_shapes = [shape.cid for shape in self.shapes.persistent.values()]
-        return (all_cids - set(cids_in_calls)) - set(cids_in_shapes)
+        cids_in_calls = set(self.call_storage.get_df()["ref_content_id"]) | set(self.call_cache.df["ref_content_id"])
+        shapes = {**self.shapes.persistent.load_all(), **self.shapes.cache}
+        cids_in_shapes = {shape.cid for shape in shapes.values()}
+        return (all_cids - cids_in_calls) - cids_in_shapes
 
     ############################################################################
     ###
-- 
2.43.0


From 7496e472c3b4570695c1a813670b4d0ec3279db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 20/79] fix: compare values with a new argument's default by
 content

---
 mandala/utils.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/mandala/utils.py b/mandala/utils.py
index 4c3833c..3fe4290 100644
--- a/mandala/utils.py
+++ b/mandala/utils.py
@@ -56,16 +56,11 @@ def _conservative_equality_check(safe_value: Any, unknown_value: Any) -> bool:
     """
     if type(safe_value) != type(unknown_value):
         return False
-    if isinstance(unknown_value, (int, float, str, bytes, bool, type(None))):
-        return safe_value == unknown_value
-    # handle some common cases
-    if isinstance(unknown_value, np.ndarray):
-        return np.array_equal(safe_value, unknown_value)
-    elif isinstance(unknown_value, pd.DataFrame):
-        return safe_value.equals(unknown_value)
-    else:
-        # fall back to the default equality check
+    if isinstance(unknown_value, (int, str, bytes, bool, type(None))):
         return safe_value == unknown_value
+    # values that are equal in Python may have different contents (e.g. `[1]`
+    # and `[1.0]`), and `__eq__` may not return a boolean
+    return get_content_hash(safe_value) == get_content_hash(unknown_value)
 
 
 def get_content_hash(obj: Any) -> str:
-- 
2.43.0


From 9fdb769e92067961618f7fbbaa6b7e54b5ea56da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 21/79] fix: an empty dict must not share its content id with
 an empty list

---
 mandala/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mandala/model.py b/mandala/model.py
index 99dce15..5fe95be 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -441,8 +441,9 @@ def __make_list__(**items: Any) -> MList[Any]:
 
 def __make_dict__(**kwargs: Any) -> dict:
     return DictRef(
-        cid=get_content_hash(sorted([(k, v.cid) for k, v in kwargs.items()])),
-        hid=get_content_hash(sorted([(k, v.hid) for k, v in kwargs.items()])),
+        # hash a dict: an empty list of items is the content of an empty list
+        cid=get_content_hash({k: v.cid for k, v in kwargs.items()}),
+        hid=get_content_hash({k: v.hid for k, v in kwargs.items()}),
         in_memory=True,
         obj=kwargs,
     )
-- 
2.43.0


From d9a71beaa159cddcf64c91015d36fc7cb4888f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 22/79] fix: an argument declared ignored may also be wrapped
 as ignored at the call

---
 mandala/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index b0b591a..ff69d29 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -792,7 +792,8 @@ class Storage:
                         storage_annotations[name] = var_keyword.annotation
             else:
                 if ignore_args is not None and k in ignore_args:
-                    v = Ignore(v)
+                    # (the argument may be wrapped already)
+                    v = Ignore(unwrap_special_value(v))
                 # could have a default
                 if isinstance(v, _Ignore):
                     # regardless of defaults, any _Ignore instance should be ignored
-- 
2.43.0


From 2d369648b6c00606395de5d219bcea65ce010cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:24 +0000
Subject: [PATCH 23/79] fix: an interrupted transaction is rolled back

---
 mandala/storage_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 553b3e5..615b4e5 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -74,7 +74,7 @@ def transaction(method):  # transaction decorator for classes with a `conn` meth
                 logging.info(f'Transaction failed with error: {e}. Retrying in {delay:.2f} seconds...')
                 time.sleep(delay)
                 continue
-            except Exception as e:
+            except BaseException as e:  # also when interrupted
                 conn.rollback()
                 raise e
             finally:
-- 
2.43.0


From 48e17207ff243ac76e47812ab6c2545239a1d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 24/79] fix: dropping a call from a frame whose outputs are not
 in the frame

---
 mandala/cf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 3afb377..a37e976 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -298,8 +298,7 @@ class ComputationFrame:
         for (src, dst, label) in res.edges():
             if src == fname or dst == fname:
                 res._drop_edge(src, dst, label)
-        hids = res.fs[fname]
-        for hid in hids:
+        for hid in list(res.fs[fname]):
             res.drop_call(fname, hid)
         del res.fs[fname]
         del res.inp[fname]
@@ -401,6 +400,7 @@ class ComputationFrame:
         Drop a call from the given function node only. This checks
         if the call is referenced by multiple function nodes.
         """
+        self.fs[fname].remove(hid)
         if (
             len(self.callinv[hid]) == 1
         ):  # if this is the only function containing the call
@@ -408,7 +408,8 @@ class ComputationFrame:
             del self.calls[hid]
             del self.callinv[hid]
             for output in call.outputs.values():
-                del self.creator[output.hid]
+                # (the output may not be in the graph)
+                self.creator.pop(output.hid, None)
             for inp in call.inputs.values():
                 if inp.hid in self.consumers:
                     self.consumers[inp.hid].remove(hid)
-- 
2.43.0


From 05b69dd928f9c8b5a267832bc5116c12c900c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 25/79] fix: removing the last edge with a label leaves the
 node unconnected

---
 mandala/cf.py    | 4 ++++
 mandala/utils.py | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index a37e976..3611805 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -325,7 +325,11 @@ class ComputationFrame:
         Internal method to remove an edge from the computation frame inplace.
         """
         self.out[src][label].remove(dst)
+        if not self.out[src][label]:
+            del self.out[src][label]
         self.inp[dst][label].remove(src)
+        if not self.inp[dst][label]:
+            del self.inp[dst][label]
 
     def edges(self) -> List[Tuple[str, str, str]]:
         return [
diff --git a/mandala/utils.py b/mandala/utils.py
index 3fe4290..0fd88bc 100644
--- a/mandala/utils.py
+++ b/mandala/utils.py
@@ -130,7 +130,11 @@ def get_adjacency_union(
 def get_adjacency_intersection(
     a: Dict[str, Dict[str, Set[str]]], b: Dict[str, Dict[str, Set[str]]]
 ) -> Dict[str, Dict[str, Set[str]]]:
-    return {k: get_setdict_intersection(a[k], b[k]) for k in a.keys() & b.keys()}
+    # (labels without common edges are not connected to anything)
+    return {
+        k: {label: nodes for label, nodes in get_setdict_intersection(a[k], b[k]).items() if nodes}
+        for k in a.keys() & b.keys()
+    }
 
 
 def get_nullable_union(*sets: Set[str]) -> Set[str]:
-- 
2.43.0


From accc77576d71515cbaf10490426134203c112f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 26/79] fix: the intersection of frames has only the references
 and calls in common nodes

---
 mandala/cf.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 3611805..29db9e0 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -827,12 +827,13 @@ class ComputationFrame:
         out = get_adjacency_intersection(a.out, b.out)
         vs = get_setdict_intersection(a.vs, b.vs)
         fs = get_setdict_intersection(a.fs, b.fs)
-        refinv = get_setdict_intersection(a.refinv, b.refinv)
-        callinv = get_setdict_intersection(a.callinv, b.callinv)
-        creator = get_dict_intersection_over_keys(a.creator, b.creator)
-        consumers = get_setdict_intersection(a.consumers, b.consumers)
-        refs = get_dict_intersection_over_keys(a.refs, b.refs)
-        calls = get_dict_intersection_over_keys(a.calls, b.calls)
+        # the operands may share a ref (or call) without sharing a node with it
+        refs = {hid: a.refs[hid] for hid in get_nullable_union(*vs.values())}
+        calls = {hid: a.calls[hid] for hid in get_nullable_union(*fs.values())}
+        refinv = {hid: {v for v in a.refinv[hid] if hid in vs.get(v, set())} for hid in refs}
+        callinv = {hid: {f for f in a.callinv[hid] if hid in fs.get(f, set())} for hid in calls}
+        creator = {k: v for k, v in a.creator.items() if k in refs and v in calls}
+        consumers = {k: v & calls.keys() for k, v in a.consumers.items() if k in refs}
         res = ComputationFrame(
             storage=a.storage,
             inp=inp,
-- 
2.43.0


From 37c8d22598ad77128fd204044980c2a349cdeecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 27/79] fix: selecting subsets forgets the nodes an element is
 no longer in

---
 mandala/cf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 29db9e0..0049781 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -666,8 +666,8 @@ class ComputationFrame:
         call_hids_subset = get_nullable_union(*fs.values())
         refs = {hid: res.refs[hid] for hid in ref_hids_subset}
         calls = {hid: res.calls[hid] for hid in call_hids_subset}
-        refinv = {hid: res.refinv[hid] for hid in ref_hids_subset}
-        callinv = {hid: res.callinv[hid] for hid in call_hids_subset}
+        refinv = {hid: {v for v in res.refinv[hid] if hid in vs[v]} for hid in ref_hids_subset}
+        callinv = {hid: {f for f in res.callinv[hid] if hid in fs[f]} for hid in call_hids_subset}
         creator = {
             hid: res.creator[hid]
             for hid in ref_hids_subset
-- 
2.43.0


From e6d4475533c99435e7a8319364f4ee6de65d3e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 28/79] fix: adjacent elements are collected along all edges
 between two nodes

---
 mandala/cf.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 0049781..0766532 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -574,22 +574,15 @@ class ComputationFrame:
         are connected to the given elements.
         """
         res = {}
+        # (the same node may be adjacent along several edges)
         if direction in ["back", "both"]:
-            edges = self.in_edges(node)
-            res.update(
-                {
-                    src: self.get_adj_elts_edge((src, dst, label), hids, "back")
-                    for (src, dst, label) in edges
-                }
-            )
+            for (src, dst, label) in self.in_edges(node):
+                adj_elts = self.get_adj_elts_edge((src, dst, label), hids, "back")
+                res[src] = res.get(src, set()) | adj_elts
         if direction in ["forward", "both"]:
-            edges = self.out_edges(node)
-            res.update(
-                {
-                    dst: self.get_adj_elts_edge((src, dst, label), hids, "forward")
-                    for (src, dst, label) in edges
-                }
-            )
+            for (src, dst, label) in self.out_edges(node):
+                adj_elts = self.get_adj_elts_edge((src, dst, label), hids, "forward")
+                res[dst] = res.get(dst, set()) | adj_elts
         return res
 
     def select_nodes(self, nodes: Iterable[str]) -> "ComputationFrame":
@@ -1917,9 +1910,10 @@ class ComputationFrame:
         return result
 
     def _add_adj_calls(self, vars_view: Dict[str, Set[str]]) -> Dict[str, Set[str]]:
-        res = vars_view.copy()
-        for vname in res.keys():
-            new = self.get_adj_elts(node=vname, hids=res[vname], direction="both")
+        res = {node: set() for node in self.nodes}
+        res.update(vars_view)
+        for vname in vars_view.keys():
+            new = self.get_adj_elts(node=vname, hids=vars_view[vname], direction="both")
             res = get_setdict_union(res, new)
         return res
 
-- 
2.43.0


From 65c3ce77150f94260064353fa0f969b58bed2233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 29/79] fix: cleaning up a frame drops its empty nodes

---
 mandala/cf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 0766532..72da2a6 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2061,7 +2061,7 @@ class ComputationFrame:
         """
         for node in list(self.nodes):
             if not self.sets[node]:
-                self.drop_node(node)
+                self.drop_node(node, inplace=True)
         # for node in list(self.nodes):
         #     for other_node in list(self.nodes):
         #         if node == other_node: continue
@@ -2074,7 +2074,7 @@ class ComputationFrame:
         # remove empty nodes
         for node in list(res.nodes):
             if not res.sets[node]:
-                res.drop_node(node)
+                res.drop_node(node, inplace=True)
         return res if not inplace else None
 
     ############################################################################
-- 
2.43.0


From e48c434f90fbd69c1dd9440f074e70487ebaaab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 30/79] fix: a call whose arguments were all removed is not
 reachable

---
 mandala/cf.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 72da2a6..c1e8037 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2048,6 +2048,16 @@ class ComputationFrame:
         initial_state = (
             self.get_source_elts() if direction == "forward" else self.get_sink_elts()
         )
+        if how == "strong":
+            # a call does not become reachable because all its inputs (or
+            # outputs) are missing from the variables that should have them
+            for fname in self.fnames:
+                labels = (self.inp if direction == "forward" else self.out)[fname].keys()
+                for hid in list(initial_state[fname]):
+                    call = self.calls[hid]
+                    io_refs = call.inputs if direction == "forward" else call.outputs
+                    if any(self.get_io_proj(hid, name) in labels for name in io_refs):
+                        initial_state[fname].remove(hid)
         to_keep = self.get_reachable_elts(
             initial_state=initial_state, direction=direction, how=how
         )
-- 
2.43.0


From f20b822ab41839a37097d8d96909bba5dea55012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 31/79] fix: merging variables must not change the original
 frame

---
 mandala/cf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index c1e8037..443e771 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1968,9 +1968,9 @@ class ComputationFrame:
             raise ValueError(f"Ref {hid} not in variable {source_vname}")
         res.vs[source_vname].remove(hid)
         res.vs[target_vname].add(hid)
-        #! update self.refinv
-        self.refinv[hid].remove(source_vname)
-        self.refinv[hid].add(target_vname)
+        #! update refinv
+        res.refinv[hid].remove(source_vname)
+        res.refinv[hid].add(target_vname)
         return res if not inplace else None
 
     def merge_into(
@@ -1985,7 +1985,7 @@ class ComputationFrame:
         ### first, update the elements
         if not res.sets[node_to_merge] <= res.sets[merge_into]:
             for hid in res.sets[node_to_merge] - res.sets[merge_into]:
-                self.move_ref(node_to_merge, merge_into, hid, inplace=True)
+                res.move_ref(node_to_merge, merge_into, hid, inplace=True)
         # for hid in res.sets[node_to_merge]:
         #     # remove from the refinv
         #     if node_to_merge in res.refinv[hid]:
-- 
2.43.0


From 92220ed9728b9838a0e300f35e8c902805519c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 32/79] fix: renaming a variable must not overwrite another
 node

---
 mandala/cf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 443e771..b852165 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -254,6 +254,10 @@ class ComputationFrame:
         return res if not inplace else None
 
     def rename_var(self, vname: str, new_vname: str, inplace: bool = False) -> Optional["ComputationFrame"]:
+        if new_vname == vname:
+            return self.copy() if not inplace else None
+        if new_vname in self.nodes:
+            raise ValueError(f"There already is a node named {new_vname} in the CF")
         res = self if inplace else self.copy()
         res.vs[new_vname] = res.vs[vname]
         res.inp[new_vname] = res.inp[vname]
-- 
2.43.0


From 6c98ea01d83e24f78b6472fb2cc85dfbc1a81632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 33/79] fix: a new variable must not get the name of a function
 and vice versa

---
 mandala/cf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index b852165..1a46a0c 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2178,21 +2178,21 @@ class ComputationFrame:
                 # this is a special case
                 return self.get_new_vname('var_0')
             i = int(name_hint.split('_')[-1])
-            while f"{v}_{i}" in self.vs:
+            while f"{v}_{i}" in self.nodes:
                 i += 1
             return f"{v}_{i}"
-        elif name_hint not in self.vs:
+        elif name_hint not in self.nodes:
             return name_hint
         i = 0
-        while f"{name_hint}_{i}" in self.vs:
+        while f"{name_hint}_{i}" in self.nodes:
             i += 1
         return f"{name_hint}_{i}"
 
     def get_new_fname(self, name_hint: str) -> str:
-        if name_hint not in self.fs:
+        if name_hint not in self.nodes:
             return name_hint
         i = 0
-        while f"{name_hint}_{i}" in self.fs:
+        while f"{name_hint}_{i}" in self.nodes:
             i += 1
         return f"{name_hint}_{i}"
     
-- 
2.43.0


From 7c51f61d6ddb4fea011d25ab482e26788410b1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:29 +0000
Subject: [PATCH 34/79] fix: expanding into an existing function node connects
 all of its calls

---
 mandala/cf.py | 54 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 1a46a0c..b3f13a2 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -380,28 +380,35 @@ class ComputationFrame:
             self.callinv[call.hid] = set()
         self.callinv[call.hid].add(fname)
         if with_refs:
-            for input_name, input_ref in call.inputs.items():
-                input_proj = get_name_proj(call.op)(input_name)
-                # skip over inputs not tracked by the graph
-                if input_proj not in self.inp[fname]:
-                    continue
-                # add to consumers
-                if input_ref.hid not in self.consumers:
-                    self.consumers[input_ref.hid] = set()
-                self.consumers[input_ref.hid].add(call.hid)
-                # add ref to corresponding variables
-                for vname in self.inp[fname][input_proj]:
-                    self.add_ref(vname, input_ref, allow_existing=True)
-            for output_name, output_ref in call.outputs.items():
-                output_proj = get_name_proj(call.op)(output_name)
-                # skip over outputs not tracked by the graph
-                if output_proj not in self.out[fname]:
-                    continue
-                # add to creator
-                self.creator[output_ref.hid] = call.hid
-                # add ref to corresponding variables
-                for vname in self.out[fname][output_proj]:
-                    self.add_ref(vname, output_ref, allow_existing=True)
+            self._add_call_refs(fname, call)
+
+    def _add_call_refs(self, fname: str, call: Call):
+        """
+        Add the inputs and outputs of a call in the given function node to the
+        variables they are connected to.
+        """
+        for input_name, input_ref in call.inputs.items():
+            input_proj = get_name_proj(call.op)(input_name)
+            # skip over inputs not tracked by the graph
+            if input_proj not in self.inp[fname]:
+                continue
+            # add to consumers
+            if input_ref.hid not in self.consumers:
+                self.consumers[input_ref.hid] = set()
+            self.consumers[input_ref.hid].add(call.hid)
+            # add ref to corresponding variables
+            for vname in self.inp[fname][input_proj]:
+                self.add_ref(vname, input_ref, allow_existing=True)
+        for output_name, output_ref in call.outputs.items():
+            output_proj = get_name_proj(call.op)(output_name)
+            # skip over outputs not tracked by the graph
+            if output_proj not in self.out[fname]:
+                continue
+            # add to creator
+            self.creator[output_ref.hid] = call.hid
+            # add ref to corresponding variables
+            for vname in self.out[fname][output_proj]:
+                self.add_ref(vname, output_ref, allow_existing=True)
 
     def drop_call(self, fname: str, hid: str):
         """
@@ -1062,6 +1069,9 @@ class ComputationFrame:
             ### finally, add the calls to the CF
             for call in group_calls:
                 self.add_call(fname, call, with_refs=True, allow_existing=reuse_existing)
+            # the new edges apply to the calls that were in the node already too
+            for call_hid in self.fs[fname]:
+                self._add_call_refs(fname, self.calls[call_hid])
 
     def get_creators(self, indexer: Union[str, Set[str]]):
         # return information about the calls that created the variables in the
-- 
2.43.0


From d9b9a6aeb55ebaea858ab7e7bb7fd054c96724e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:29 +0000
Subject: [PATCH 35/79] fix: recursive expansion goes on while it finds calls,
 not only new nodes

---
 mandala/cf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index b3f13a2..0d983a0 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1096,7 +1096,7 @@ class ComputationFrame:
         res = self if inplace else self.copy()
         if varnames is None:
             while True: # recurse until a fixed point is reached
-                current_size = len(res.nodes)
+                current_size = len(res.nodes) + len(res.refs) + len(res.calls)
                 varnames = res.vs.keys()
                 res._expand_unidirectional(
                     direction=direction,
@@ -1107,7 +1107,7 @@ class ComputationFrame:
                     recursive=recursive,
                     reuse_existing=reuse_existing,
                 )
-                new_size = len(res.nodes)
+                new_size = len(res.nodes) + len(res.refs) + len(res.calls)
                 if new_size == current_size:
                     break
                 if not recursive:
@@ -1123,7 +1123,7 @@ class ComputationFrame:
         expandable_elts = {k: v for k, v in expandable_elts.items() if k in varnames}
         if verbose:
             print(f'Found the following number elements to expand in direction {direction}:\n{textwrap.indent(pprint.pformat({k: len(v) for k, v in expandable_elts.items()}), "  ")}')
-        ref_hids = set.union(*expandable_elts.values())
+        ref_hids = get_nullable_union(*expandable_elts.values())
         calls = res.storage.get_creators(ref_hids) if direction == "back" else res.storage.get_consumers(ref_hids)
         if verbose: print(f'Found {len(calls)} calls to expand')
         if skip_existing:
-- 
2.43.0


From c8ca3b669dcecd66fbe8abb944365fcc56e5e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:29 +0000
Subject: [PATCH 36/79] fix: expanding forward finds all consumers of elements
 that have some in the frame

---
 mandala/cf.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 0d983a0..0fefe78 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1116,15 +1116,20 @@ class ComputationFrame:
         if isinstance(varnames, str):
             varnames = {varnames}
         
-        # TODO: when expanding forward, we don't really want to start from the 
-        # sink elements, because there may be non-sink elements that don't have
-        # all their consumer calls in the CF!
         expandable_elts = res.get_source_elts() if direction == "back" else res.get_sink_elts()
         expandable_elts = {k: v for k, v in expandable_elts.items() if k in varnames}
         if verbose:
             print(f'Found the following number elements to expand in direction {direction}:\n{textwrap.indent(pprint.pformat({k: len(v) for k, v in expandable_elts.items()}), "  ")}')
         ref_hids = get_nullable_union(*expandable_elts.values())
-        calls = res.storage.get_creators(ref_hids) if direction == "back" else res.storage.get_consumers(ref_hids)
+        if direction == "back":
+            calls = res.storage.get_creators(ref_hids)
+        else:
+            # elements that are not sinks may have consumers outside of the CF
+            all_hids = get_nullable_union(*[res.vs[vname] for vname in varnames])
+            calls = [
+                call for call in res.storage.get_consumers(all_hids)
+                if call.hid not in res.calls or any(ref.hid in ref_hids for ref in call.inputs.values())
+            ]
         if verbose: print(f'Found {len(calls)} calls to expand')
         if skip_existing:
             calls = [call for call in calls if call.hid not in res.calls]
-- 
2.43.0


From 8008217575f691bc0286c612a55fa20113987e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:29 +0000
Subject: [PATCH 37/79] fix: the union of frames connects references with calls
 that come from the other frame

---
 mandala/cf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 0fefe78..98e628b 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -818,6 +818,10 @@ class ComputationFrame:
             calls=calls,
         )
         res._check()  #! not every union results in a valid CF
+        # the creator of a ref in one CF may come from the other
+        for fname, call_hids in res.fs.items():
+            for call_hid in call_hids:
+                res._add_call_refs(fname, res.calls[call_hid])
         return res
 
     @staticmethod
-- 
2.43.0


From 73412adb2c80c0522fd201b7ca6b43656a30433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:29 +0000
Subject: [PATCH 38/79] fix: describe frames with function nodes that have no
 calls

---
 mandala/cf.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 98e628b..584c23e 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -165,7 +165,7 @@ class ComputationFrame:
         res = {}
         for fname, call_hids in self.fs.items():
             if not call_hids:
-                raise NotImplementedError("TODO: handle empty function nodes")
+                continue # the op of an empty function node is not known
             res[fname] = self.calls[next(iter(call_hids))].op
         return res
 
@@ -1006,7 +1006,7 @@ class ComputationFrame:
                     if group_hids <= self.fs[fname] or (self.fs[fname] <= group_hids and len(self.fs[fname]) != 0):
                         found_func_match = True
                         break
-                    elif self.ops()[fname].name == op_id:
+                    elif fname in self.ops() and self.ops()[fname].name == op_id:
                         found_func_match = True
                         break
             if found_func_match:
@@ -2232,12 +2232,14 @@ class ComputationFrame:
         if isolated_vars:
             lines.append(", ".join(sorted(isolated_vars)))
         for fname in self.sort_nodes(self.fnames):
-            op = self.ops()[fname]
+            op = self.ops().get(fname)
             input_name_to_vars = self.inp[fname] # input name -> {variables connected}
             output_name_to_vars = self.out[fname] # output name -> {variables connected}
             
             output_names = output_name_to_vars.keys()
-            if op.output_names is not None:
+            if op is None:
+                output_to_idx = {name: idx for idx, name in enumerate(sorted(output_names))}
+            elif op.output_names is not None:
                 output_to_idx = {name: idx for idx, name in enumerate(op.output_names)}
             else:
                 output_to_idx = {name: int(name.split('_')[1]) for name in output_names}
@@ -2309,7 +2311,7 @@ class ComputationFrame:
             )
         fnodes = {}
         for fname in self.fnames:
-            op_name = self.calls[next(iter(self.fs[fname]))].op.name
+            op_name = self.calls[next(iter(self.fs[fname]))].op.name if self.fs[fname] else fname
             if verbose:
                 fname_versions = num_versions[fname]
                 if fname_versions > 1:
-- 
2.43.0


From b81ef3495bb7f55367c007e242f897cec0da40c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:15 +0000
Subject: [PATCH 39/79] fix: the table of a single node shows the values, also
 of a function

---
 mandala/cf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 584c23e..4853114 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1360,8 +1360,8 @@ class ComputationFrame:
         if len(nodes) == 0:
             nodes = tuple(self.nodes)
         elif len(nodes) == 1:
-            values = list(self.get_var_values(nodes[0]))
-            return pd.DataFrame(values, columns=[nodes[0]])
+            df = pd.DataFrame({nodes[0]: list(self.values[nodes[0]])}, dtype=object)
+            return self.eval_df(df, skip_cols=lazy_vars) if values == "objs" else df
         restricted_cf = self.midstream(*nodes)
         if verbose:
             graph_desc = restricted_cf.get_graph_desc()
-- 
2.43.0


From aa19984f4a9b769a1dc47a46df5c481cbeffc318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:15 +0000
Subject: [PATCH 40/79] fix: the frame between nodes includes these nodes

---
 mandala/cf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 4853114..c65b10d 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -767,7 +767,8 @@ class ComputationFrame:
             for end_node in nodes:
                 if start_node != end_node:
                     edges |= self.get_all_edges_on_paths_between(start_node, end_node)
-        midstream_nodes = get_nullable_union(*[set(edge) for edge in edges])
+        # (the given nodes may not be on a path between two of them)
+        midstream_nodes = get_nullable_union(set(nodes), *[set(edge) for edge in edges])
         logging.debug(f'Selected {midstream_nodes} from {self.nodes}')
         # first, restrict to the subgraph induced by the midstream nodes
         pre_res = self.select_nodes(midstream_nodes)
-- 
2.43.0


From 51ae24bc3f7f99b3030a1ddfc7e33561546dc01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:15 +0000
Subject: [PATCH 41/79] fix: tables of frames that are empty or end in calls

---
 mandala/cf.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index c65b10d..ee15c84 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1370,15 +1370,20 @@ class ComputationFrame:
             print(
                 f"Extracting tuples from the computation graph:\n{graph_desc}"
             )
-        vnames = {
+        # (a call is final when its outputs are not in the graph)
+        final_nodes = {
             x
             for x, sink_elts in restricted_cf.get_sink_elts().items()
-            if x in restricted_cf.vnames and len(sink_elts) > 0
+            if len(sink_elts) > 0
         }
         if verbose:
-            print(f'Found variables {vnames} containing final elements')
+            print(f'Found nodes {final_nodes} containing final elements')
+        if len(final_nodes) == 0:
+            return pd.DataFrame(columns=self.sort_nodes([
+                x for x in nodes if include_calls or x in self.vnames
+            ]))
         df = restricted_cf.get_joint_history_df(
-            varnames=vnames, how=join_how,
+            varnames=final_nodes, how=join_how,
             # excluding calls is best done at the end, because we may miss
             # some useful join conditions if we exclude them here
             include_calls=True, 
@@ -1491,7 +1496,11 @@ class ComputationFrame:
         """
         total_res = {vname: hids}
         if vname not in self.vnames:
-            raise NotImplementedError()
+            # the inputs precede the calls
+            return ComputationFrame._unify_subobjects(
+                total_res,
+                {k: v for k, v in self.get_adj_elts(vname, hids, "back").items() if v},
+            )
         for hid in hids:
             if hid not in self.creator:
                 continue
@@ -1565,10 +1574,11 @@ class ComputationFrame:
             ) -> pd.DataFrame:
         """
         Returns a dataframe where the rows represent the views of the full
-        history of all the refs in the variable `vname`.
+        history of all the refs in the variable `vname` (or calls, if this is
+        a function).
         """
         rows = []
-        for hid in self.vs[vname]:
+        for hid in self.sets[vname]:
             total_history = self.get_total_history(
                 vname, {hid}, include_calls=include_calls
             )
-- 
2.43.0


From 0f8ac708f5947746cae247f52f3e06f2f5c93bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:15 +0000
Subject: [PATCH 42/79] fix: unrelated computations get separate rows in a
 table

---
 mandala/cf.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index ee15c84..7e4e35d 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1702,12 +1702,24 @@ class ComputationFrame:
         ]
         result = history_dfs[0]
         for df, varname in zip(history_dfs[1:], sorted_varnames[1:]):
-            shared_cols = set(result.columns) & set(df.columns)
+            shared_cols = list(set(result.columns) & set(df.columns))
             if verbose:
                 print(f'   Merging history for the variable {varname} on columns: {shared_cols}')
-            result = pd.merge(
-                result, df, how=how, on=list(shared_cols), suffixes=("", "")
-            )
+            # computations that have nothing in common are not joined: missing 
+            # values would match each other
+            related, related_df = result[shared_cols].notnull().any(axis=1), df[shared_cols].notnull().any(axis=1)
+            if related.any() and related_df.any():
+                joined = pd.merge(
+                    result[related], df[related_df], how=how, on=shared_cols, suffixes=("", "")
+                )
+                unrelated = [result[~related], df[~related_df]]
+            else:
+                joined = pd.DataFrame(columns=list(result.columns) + [c for c in df.columns if c not in shared_cols])
+                unrelated = [result, df]
+            if how == "outer":
+                parts = [part for part in [joined] + unrelated if len(part) > 0]
+                joined = pd.concat(parts, ignore_index=True) if len(parts) > 0 else joined
+            result = joined
         # go back to refs
         result = result.applymap(eval_hids)
         return self._sort_df(result)
-- 
2.43.0


From 036f43e5f8980ecdc949f3737dbea3ea3f28ddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:15 +0000
Subject: [PATCH 43/79] fix: deleting the calls in a table includes cells with
 several calls

---
 mandala/cf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 7e4e35d..c2399fa 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2205,6 +2205,8 @@ class ComputationFrame:
         hids = set()
         for col in df.columns:
             hids |= {elt.hid for elt in df[col] if isinstance(elt, Call)}
+            # a cell may hold several calls
+            hids |= {call.hid for elt in df[col] if isinstance(elt, CallCollection) for call in elt.calls}
         self.storage.drop_calls(calls_or_hids=hids, delete_dependents=True)
 
     ############################################################################
-- 
2.43.0


From b9c4b4af431d59cdb3b2c71a94c9ce967a76cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:07 +0000
Subject: [PATCH 44/79] fix: expanding completes the calls whose inputs or
 outputs are not all in the frame

---
 mandala/cf.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index c2399fa..b60e381 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1126,15 +1126,18 @@ class ComputationFrame:
         if verbose:
             print(f'Found the following number elements to expand in direction {direction}:\n{textwrap.indent(pprint.pformat({k: len(v) for k, v in expandable_elts.items()}), "  ")}')
         ref_hids = get_nullable_union(*expandable_elts.values())
-        if direction == "back":
-            calls = res.storage.get_creators(ref_hids)
-        else:
-            # elements that are not sinks may have consumers outside of the CF
-            all_hids = get_nullable_union(*[res.vs[vname] for vname in varnames])
-            calls = [
-                call for call in res.storage.get_consumers(all_hids)
-                if call.hid not in res.calls or any(ref.hid in ref_hids for ref in call.inputs.values())
-            ]
+        # elements that are not sinks may have consumers outside of the CF, and
+        # calls in the CF may lack inputs (or outputs)
+        all_hids = get_nullable_union(*[res.vs[vname] for vname in varnames])
+        calls = []
+        for call in (res.storage.get_creators(all_hids) if direction == "back" else res.storage.get_consumers(all_hids)):
+            glued, dual = (call.outputs, call.inputs) if direction == "back" else (call.inputs, call.outputs)
+            if (
+                any(ref.hid in ref_hids for ref in glued.values())
+                or call.hid not in res.calls
+                or any(ref.hid not in res.refs for ref in dual.values())
+            ):
+                calls.append(call)
         if verbose: print(f'Found {len(calls)} calls to expand')
         if skip_existing:
             calls = [call for call in calls if call.hid not in res.calls]
@@ -1165,7 +1168,8 @@ class ComputationFrame:
     ) -> Optional["ComputationFrame"]:
         """
         Join to the CF the calls that created all refs in the given variables
-        that currently do not have a connected creator call in the CF.
+        that currently do not have a connected creator call in the CF, or one
+        that lacks some of its inputs.
 
         If such refs are found, this will result to the addition of 
         - new function nodes for the calls that created these refs;
-- 
2.43.0


From 18078b546e408d2b175bbb0fde31a27c8b31fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:50 +0000
Subject: [PATCH 45/79] fix: several processes may create the database at the
 same time

---
 mandala/storage_utils.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 615b4e5..3d717f8 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -23,10 +23,23 @@ class DBAdapter:
             if not os.path.exists(db_path):
                 # create a database with incremental vacuuming
                 conn = self.conn()
-                conn.execute("PRAGMA journal_mode=WAL")
+                self._set_journal_mode(conn)
                 conn.execute("PRAGMA auto_vacuum=INCREMENTAL")
                 conn.execute("PRAGMA incremental_vacuum_threshold = 1024;")
                 conn.close()
+
+    def _set_journal_mode(self, conn: sqlite3.Connection):
+        # sqlite does not wait for other connections when it changes the journal
+        # mode, and other processes may be creating the database, too
+        deadline = time.time() + 60
+        while True:
+            try:
+                conn.execute("PRAGMA journal_mode=WAL")
+                return
+            except sqlite3.OperationalError as e:
+                if "locked" not in str(e) or time.time() > deadline:
+                    raise e
+                time.sleep(0.01)
     
     @property
     def in_memory(self) -> bool:
-- 
2.43.0


From df52a4945a52ac71abd3cc1ae556a211f866b2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:17 +0000
Subject: [PATCH 46/79] fix: paths between nodes of a frame with cycles

---
 mandala/utils.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/mandala/utils.py b/mandala/utils.py
index 0fd88bc..f2d353e 100644
--- a/mandala/utils.py
+++ b/mandala/utils.py
@@ -447,18 +447,11 @@ def get_edges_in_paths(
             for edge in path:
                 valid_edges.add(edge)
             return
-
         visited.add(node)
         for neighbor in graph[node]:
             if neighbor not in visited:
                 dfs(neighbor, path + [(node, neighbor)])
-            elif (node, neighbor) not in valid_edges and (node, neighbor) not in path:
-                # If we've visited this neighbor before but this edge isn't marked yet,
-                # it might be part of a cycle that leads to B
-                dfs(neighbor, path + [(node, neighbor)])
-        if node in visited:
-            # we may have removed `node` already if it was part of a cycle
-            visited.remove(node)
+        visited.remove(node)
 
     visited = set()
     valid_edges = set()
-- 
2.43.0


From de48b6493cce621d5f56e85cc9531d14a15445a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:17 +0000
Subject: [PATCH 47/79] fix: dropping a call from a frame that does not connect
 it to all of its inputs

---
 mandala/cf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index b60e381..6073357 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -427,7 +427,8 @@ class ComputationFrame:
                 self.creator.pop(output.hid, None)
             for inp in call.inputs.values():
                 if inp.hid in self.consumers:
-                    self.consumers[inp.hid].remove(hid)
+                    # (the input may not be connected to the call)
+                    self.consumers[inp.hid].discard(hid)
                     if len(self.consumers[inp.hid]) == 0:
                         del self.consumers[inp.hid]
         else:  # if there are other functions containing the call
-- 
2.43.0


From 1e21abe57aaed0ea568087ff576e37ead1b9cbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:17 +0000
Subject: [PATCH 48/79] fix: join tables with cells that hold several
 references

---
 mandala/cf.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 6073357..cec96b5 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1659,27 +1659,28 @@ class ComputationFrame:
 
         def extract_hids(
             x: Union[None, Ref, Call, Set[Ref], Set[Call]]
-        ) -> Union[None, str, Set[str]]:
+        ) -> Optional[str]:
             """
             Convert a Ref or Call object to its hid, or a set of Refs/Calls to
-            a canonical hashable representation.
+            a canonical string representation (pandas can't merge columns that
+            mix tuples and strings).
             """
             if pd.isnull(x):
                 return None
             elif isinstance(x, (Ref, Call)):
                 return x.hid
             else:
-                # necessary to make it canonically hashable 
-                return tuple(sorted({elt.hid for elt in x}))
+                return ",".join(sorted({elt.hid for elt in x}))
 
         def eval_hids(
-            hids: Union[None, str, Set[str]]
+            hids: Optional[str]
         ) -> Union[None, Ref, Call, RefCollection, CallCollection]:
             if pd.isnull(hids):
                 return None
-            elif isinstance(hids, str):
+            elif "," not in hids:
                 return self.refs[hids] if hids in self.refs else self.calls[hids]
             else:
+                hids = hids.split(",")
                 sorted_objs = tuple(
                     sorted(
                         {
-- 
2.43.0


From 0db4dde72bdf8a3aa98213038f7b75da8d463e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:03 +0000
Subject: [PATCH 49/79] fix: expanding connects a collection with all variables
 that hold its elements

---
 mandala/cf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index cec96b5..15ba7b5 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -948,7 +948,8 @@ class ComputationFrame:
                     connected_vnames = self.refinv[ref.hid] & set(available_nodes)
                     if not connected_vnames:
                         continue
-                    identifying_variables[label] = connected_vnames
+                    # (several inputs may have the same label)
+                    identifying_variables[label] = identifying_variables.get(label, set()) | connected_vnames
             # get a hashable canonical representation of the group
             group_id = (
                 op_id,
-- 
2.43.0


From b215fc0071f35232799fe667a795a91c57f249f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:49 +0000
Subject: [PATCH 50/79] fix: expanding connects calls with arguments and
 results that are elsewhere in the frame

---
 mandala/cf.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 15ba7b5..b55b255 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -920,6 +920,20 @@ class ComputationFrame:
     ############################################################################
     ### back/forward expansion
     ############################################################################
+    def _get_unconnected(self, call: Call, side: Literal["inputs", "outputs"]) -> Set[str]:
+        """
+        Get the inputs/outputs of a call in the CF that are in no variable
+        connected to the call.
+        """
+        res = set()
+        for name, ref in getattr(call, side).items():
+            label = get_name_proj(call.op)(name)
+            adj = self.inp if side == "inputs" else self.out
+            connected_vnames = get_nullable_union(*[adj[fname].get(label, set()) for fname in self.callinv[call.hid]])
+            if not any(ref.hid in self.vs[vname] for vname in connected_vnames):
+                res.add(ref.hid)
+        return res
+
     def _group_calls(
         self,
         calls: List[Call],
@@ -1133,11 +1147,13 @@ class ComputationFrame:
         all_hids = get_nullable_union(*[res.vs[vname] for vname in varnames])
         calls = []
         for call in (res.storage.get_creators(all_hids) if direction == "back" else res.storage.get_consumers(all_hids)):
-            glued, dual = (call.outputs, call.inputs) if direction == "back" else (call.inputs, call.outputs)
+            glued, dual = ("outputs", "inputs") if direction == "back" else ("inputs", "outputs")
+            glued_hids = {ref.hid for ref in getattr(call, glued).values()}
             if (
-                any(ref.hid in ref_hids for ref in glued.values())
+                glued_hids & ref_hids
                 or call.hid not in res.calls
-                or any(ref.hid not in res.refs for ref in dual.values())
+                or res._get_unconnected(call, side=glued) & all_hids
+                or res._get_unconnected(call, side=dual)
             ):
                 calls.append(call)
         if verbose: print(f'Found {len(calls)} calls to expand')
-- 
2.43.0


From 17d5b16e958103d9a228c9faf3dff6bc41eb5de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 51/79] fix: link references that an expansion adds to calls
 that were in the frame before

---
 mandala/cf.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index b55b255..b73893b 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1093,6 +1093,25 @@ class ComputationFrame:
             # the new edges apply to the calls that were in the node already too
             for call_hid in self.fs[fname]:
                 self._add_call_refs(fname, self.calls[call_hid])
+        self._link_calls()
+
+    def _link_calls(self):
+        """
+        Record the calls in the CF as the creators/consumers of the refs in the
+        variables connected to them. The refs may have been added after the
+        calls, e.g. if the frame is a selection that didn't contain them.
+        """
+        for fname, hids in self.fs.items():
+            for call in (self.calls[hid] for hid in hids):
+                name_proj = get_name_proj(call.op)
+                for name, ref in call.inputs.items():
+                    vnames = self.inp[fname].get(name_proj(name), set())
+                    if vnames & self.refinv.get(ref.hid, set()):
+                        self.consumers.setdefault(ref.hid, set()).add(call.hid)
+                for name, ref in call.outputs.items():
+                    vnames = self.out[fname].get(name_proj(name), set())
+                    if vnames & self.refinv.get(ref.hid, set()):
+                        self.creator[ref.hid] = call.hid
 
     def get_creators(self, indexer: Union[str, Set[str]]):
         # return information about the calls that created the variables in the
-- 
2.43.0


From 7c777c68028ab91f5fb0b4100974368131beb9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 52/79] fix: tracked helpers may raise handled exceptions or
 run in threads

---
 mandala/deps/tracers/dec_impl.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 81eee80..13bddfc 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -143,9 +143,10 @@ def track(obj: Union[types.FunctionType, type]) -> "obj":
             tracer = DecTracer.get_active_trace_obj()
             if tracer is not None:
                 node = tracer.register_call(func=obj)
-                outcome = obj(*args, **kwargs)
-                tracer.register_return(node)
-                return outcome
+                try:
+                    return obj(*args, **kwargs)
+                finally:
+                    tracer.register_return(node)
             else:
                 return obj(*args, **kwargs)
 
@@ -271,8 +272,8 @@ class DecTracer(TracerABC):
         self.graph.add_edge(calling_node, node)
 
     def register_return(self, node: CallableNode):
-        assert self.call_stack[-1] == node
-        self.call_stack.pop()
+        # calls made from several threads may return in any order
+        self.call_stack.remove(node)
 
     @staticmethod
     def register_leaf_event(trace_obj: "DecTracer", data: TerminalData):
-- 
2.43.0


From aa3e1f517a08af1df27d853247de76ac618eb426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 53/79] fix: memoized calls made inside a memoized call are
 dependencies of it

---
 mandala/deps/tracers/dec_impl.py | 12 ++++++-
 mandala/storage.py               | 57 ++++++++++++++++++++++++++------
 2 files changed, 57 insertions(+), 12 deletions(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 13bddfc..06f23d4 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -52,7 +52,8 @@ class TrackedDict(dict):
 
     def __getitem__(self, __key: str) -> Any:
         result = self.__original__.__getitem__(__key)
-        if TracerState.tracer is not None:
+        is_op = type(result).__name__ == Config.func_interface_cls_name
+        if TracerState.tracer is not None and not is_op: # ops are tracked when called
             tracer = TracerState.tracer
             unwrapped_result = unwrap_decorators(result, strict=False)
             if isinstance(unwrapped_result, (types.FunctionType, type)):
@@ -293,6 +294,15 @@ class DecTracer(TracerABC):
             trace_obj.graph.add_edge(trace_obj.call_stack[-1], node)
         return
 
+    def register_failed_call(self, tracer: "DecTracer"):
+        # a memoized call that raised is not recorded anywhere else, so it is
+        # a dependency like any other function call
+        self.graph.nodes.update(tracer.graph.nodes)
+        self.graph.edges |= tracer.graph.edges
+        if len(self.call_stack) > 0:
+            for root in tracer.graph.roots:
+                self.graph.edges.add((self.call_stack[-1].key, root))
+
     @staticmethod
     def leaf_signal(data):
         # a way to detect the end of a trace
diff --git a/mandala/storage.py b/mandala/storage.py
index ff69d29..76d99d6 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -7,6 +7,7 @@ from .model import __make_list__, __list_getitem__, __make_dict__, __dict_getite
 from .utils import dataframe_to_prettytable, parse_returns, _conservative_equality_check, boundargs_to_args_kwargs
 from .viz import _get_colorized_diff
 from .deps.versioner import Versioner, CodeState
+from .deps.model import TerminalData
 from .deps.utils import get_dep_key_from_func, extract_func_obj
 from .deps.tracers import DecTracer, SysTracer, TracerABC
 from .deps.tracers.dec_impl import track
@@ -830,6 +831,46 @@ class Storage:
 
         NOTE: this function does NOT save the call to the storage. 
         """
+        if not self.versioned or op.__structural__:
+            return self._call_internal(op, storage_inputs, storage_tps, bound_arguments)
+        TracerCls = self.cached_versioner.TracerCls
+        tracer = self.cached_versioner.make_tracer()
+        # suspend the trace of the call this one is made from, if any
+        suspended_trace_obj = TracerCls.get_active_trace_obj()
+        TracerCls.set_active_trace_obj(None)
+        try:
+            outputs, main_call, calls = self._call_internal(
+                op, storage_inputs, storage_tps, bound_arguments, tracer_option=tracer
+            )
+        except BaseException:
+            if isinstance(suspended_trace_obj, DecTracer):
+                # the surrounding call may handle the error
+                suspended_trace_obj.register_failed_call(tracer)
+            raise
+        finally:
+            TracerCls.set_active_trace_obj(None)
+            TracerCls.set_active_trace_obj(suspended_trace_obj)
+        if suspended_trace_obj is not None:
+            TracerCls.register_leaf_event(
+                suspended_trace_obj,
+                TerminalData(
+                    op_internal_name=op.name,
+                    op_version=op.version,
+                    call_content_version=main_call.content_version,
+                    call_semantic_version=main_call.semantic_version,
+                    dep_key=get_dep_key_from_func(func=op.f),
+                ),
+            )
+        return outputs, main_call, calls
+
+    def _call_internal(
+        self,
+        op: Op,
+        storage_inputs: Dict[str, Any],
+        storage_tps: Dict[str, Type],
+        bound_arguments: Optional[inspect.BoundArguments] = None,
+        tracer_option: Optional[TracerABC] = None,
+    ) -> Tuple[Dict[str, Ref], Call, List[Call]]:
         ### wrap the inputs
         if not op.__structural__: logger.debug(f"Calling {op.name} with args {bound_arguments}.")
 
@@ -843,12 +884,6 @@ class Storage:
         if len(input_calls) > 0:
             if not op.__structural__: logger.debug(f"Collected {len(input_calls)} calls for inputs.")
 
-        if must_version_call:
-            suspended_trace_obj = self.cached_versioner.TracerCls.get_active_trace_obj()
-            self.cached_versioner.TracerCls.set_active_trace_obj(trace_obj=None)
-        else:
-            suspended_trace_obj = None
-
         ### check for the call
         pre_call_id = op.get_pre_call_id(wrapped_inputs)
         call_option = self.lookup_call(
@@ -860,10 +895,6 @@ class Storage:
             versioner=self.cached_versioner if must_version_call else None,
             must_version=must_version_call,
         )
-        tracer_option = (
-            self.cached_versioner.make_tracer() if must_version_call and not op.__structural__ else None
-        )
-
         call_exists = (call_option is not None)
         if call_exists:
             call_hid = call_option.hid
@@ -1217,7 +1248,11 @@ class Storage:
             # now unwrap the values of the arguments
             args = tuple([self.unwrap(arg) for arg in args])
             kwargs = {k: self.unwrap(v) for k, v in kwargs.items()}
-            return op.f(*args, **kwargs)
+            f = op.f
+            if DecTracer.get_active_trace_obj() is not None:
+                # inside a call, this is a dependency like any other function
+                f = track(f)
+            return f(*args, **kwargs)
         elif self.mode == "run":
             storage_tps = {
                 k: Type.from_annotation(annotation=v) for k, v in storage_annotations.items()
-- 
2.43.0


From 234bd677aae5637936a26f3ec08d569d489b104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 54/79] fix: attribute an accessed global variable to the
 module it is defined in

---
 mandala/deps/tracers/dec_impl.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 06f23d4..1caa813 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -45,6 +45,12 @@ class TrackedDict(dict):
     """
     def __init__(self, original: dict, verbose: bool = False):
         self.__original__ = original
+        # the module these are the globals of
+        self.__module_name__ = (
+            original.__module_name__
+            if isinstance(original, TrackedDict)
+            else original.get("__name__")
+        )
         self.verbose = verbose
     
     def __repr__(self) -> str:
@@ -73,7 +79,9 @@ class TrackedDict(dict):
                         f"Function/class {result} from module {unwrapped_result.__module__} is accessed but not tracked"
                     )
             elif is_global_val(result):
-                tracer.register_global_access(key=__key, value=result)
+                tracer.register_global_access(
+                    key=__key, value=result, module_name=self.__module_name__
+                )
             else:
                 if (
                     DecTracerConfig.restrict_global_accesses
@@ -260,13 +268,13 @@ class DecTracer(TracerABC):
             self.graph.roots.add(node.key)
         return node
 
-    def register_global_access(self, key: str, value: Any):
+    def register_global_access(self, key: str, value: Any, module_name: str):
         if not self.track_globals:
             return
         assert len(self.call_stack) > 0
         calling_node = self.call_stack[-1]
         node = GlobalVarNode.from_obj(
-            obj=value, dep_key=(calling_node.module_name, key), 
+            obj=value, dep_key=(module_name, key), 
             skip_unhashable=self.skip_unhashable_globals,
             skip_silently=self.skip_globals_silently
         )
-- 
2.43.0


From 99c9d99d16fa9f44f40c4a9444c15e21e2b0f438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 55/79] fix: find the functions defined in the __init__.py of
 packages

---
 mandala/deps/crawler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mandala/deps/crawler.py b/mandala/deps/crawler.py
index 25f109c..9c96786 100644
--- a/mandala/deps/crawler.py
+++ b/mandala/deps/crawler.py
@@ -84,6 +84,9 @@ def crawl_static(
                 )
             if package_name is not None:
                 module_name = ".".join([package_name, module_name])
+            if filename == "__init__.py" and "." in module_name:
+                # this is the module of the package itself
+                module_name = module_name.rsplit(".", 1)[0]
         else:
             module_name = "__main__"
         try:
-- 
2.43.0


From 03bba7f1c873c67b86a7bfa76d2ab872991cbeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 56/79] fix: track the static and class methods of tracked
 classes

---
 mandala/deps/crawler.py          | 2 ++
 mandala/deps/tracers/dec_impl.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/mandala/deps/crawler.py b/mandala/deps/crawler.py
index 9c96786..9d1cad9 100644
--- a/mandala/deps/crawler.py
+++ b/mandala/deps/crawler.py
@@ -41,6 +41,8 @@ def crawl_obj(
                 return
             for k in obj.__dict__.keys():
                 v = obj.__dict__[k]
+                if isinstance(v, (staticmethod, classmethod)):
+                    v = v.__func__
                 crawl_obj(
                     obj=v,
                     module_name=module_name,
diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 1caa813..e6930a9 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -139,6 +139,10 @@ def track(obj: Union[types.FunctionType, type]) -> "obj":
         for k, v in obj.__dict__.items():
             if isinstance(v, (types.FunctionType, type)):
                 setattr(obj, k, track(v))
+            elif isinstance(v, (staticmethod, classmethod)) and isinstance(
+                v.__func__, types.FunctionType
+            ):
+                setattr(obj, k, type(v)(track(v.__func__)))
         TracerState.registry[(obj.__module__, obj.__qualname__)] = obj
         return obj
     elif isinstance(obj, types.FunctionType):
-- 
2.43.0


From 8b0a90258750849d60f5ec1620bfa3b985dfe00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 57/79] fix: a dropped call can be computed again in a
 versioned storage

---
 mandala/deps/versioner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index 530952e..cdc9b01 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -423,7 +423,12 @@ class Versioner:
             "content_version": version.content_version,
             "outputs": outputs,
         }
-        if not is_recompute:
+        is_known = (
+            (self.df["pre_call_uid"] == pre_call_uid)
+            & (self.df["semantic_version"] == version.semantic_version)
+        ).any()
+        # (a known call that is computed again was dropped from the storage)
+        if not is_recompute and not is_known:
             self._check_semantic_distinguishability(
                 component=component, pre_call_uid=pre_call_uid, call_version=version
             )
-- 
2.43.0


From 4f98cf4b6fc7e514753e7a92cc0341cf2531e691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 58/79] fix: skip unhashable global variables when reading the
 state of the code

---
 mandala/deps/versioner.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index cdc9b01..2a625b7 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -159,7 +159,15 @@ class Versioner:
                 and dep_key not in result_graph.nodes.keys()
             ):
                 obj = node.load_obj(skip_missing=self.skip_missing_deps, skip_silently=self.skip_missing_silently)
-                fallback_result[dep_key] = node.from_obj(obj=obj, dep_key=dep_key)
+                if isinstance(node, GlobalVarNode):
+                    # (what was skipped in the trace must be skipped here too)
+                    fallback_result[dep_key] = GlobalVarNode.from_obj(
+                        obj=obj, dep_key=dep_key,
+                        skip_unhashable=self.skip_unhashable_globals,
+                        skip_silently=self.skip_globals_silently,
+                    )
+                else:
+                    fallback_result[dep_key] = node.from_obj(obj=obj, dep_key=dep_key)
         nodes = {**result_graph.nodes, **fallback_result}
         # fill in the gaps with a static crawl
         static_result, objs = crawl_static(
-- 
2.43.0


From 5f213f656b1de70f432d0a2b980deaebc4b01210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 59/79] fix: report a global variable that changed during a
 session instead of failing to

---
 mandala/deps/versioner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index 2a625b7..2589d42 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -231,7 +231,7 @@ class Versioner:
                         print(f"Expected: {hypothesis.nodes[trace_dep_key].content()}")
                         print(f"Actual: {trace_node.content()}")
                         print(
-                            f"Diff:\n{_get_colorized_diff(hypothesis.nodes[trace_dep_key].content(), trace_node.content())}"
+                            f"Diff:\n{_get_colorized_diff(hypothesis.nodes[trace_dep_key].readable_content(), trace_node.readable_content())}"
                         )
                         raise ValueError(f"Content mismatch for {trace_dep_key}")
                 elif isinstance(trace_node, CallableNode):
-- 
2.43.0


From 3eb4761c2a03f38156db730b00b7bb798bbddb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 60/79] fix: functions of a removed module are missing
 dependencies like any other

---
 mandala/deps/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mandala/deps/utils.py b/mandala/deps/utils.py
index c056be9..320e6c7 100644
--- a/mandala/deps/utils.py
+++ b/mandala/deps/utils.py
@@ -190,7 +190,13 @@ def hash_dict(d: dict) -> str:
 
 
 def load_obj(module_name: str, obj_name: str) -> Tuple[Any, bool]:
-    module = importlib.import_module(module_name)
+    try:
+        module = importlib.import_module(module_name)
+    except ModuleNotFoundError as e:
+        if e.name is None or not f"{module_name}.".startswith(f"{e.name}."):
+            # the module is there, but one it imports is not
+            raise
+        return None, False
     parts = obj_name.split(".")
     current = module
     found = True
-- 
2.43.0


From 03bede8cf2276e586fbaa65bd00851a5dd625a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:07 +0000
Subject: [PATCH 61/79] fix: relative imports inside versioned functions

---
 mandala/deps/tracers/dec_impl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index e6930a9..2d4a520 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -44,6 +44,10 @@ class TrackedDict(dict):
     A dictionary that tracks global variable accesses.
     """
     def __init__(self, original: dict, verbose: bool = False):
+        # imports and definitions inside a function look these up directly
+        super().__init__(
+            {k: original.get(k) for k in ("__name__", "__package__", "__spec__") if k in original}
+        )
         self.__original__ = original
         # the module these are the globals of
         self.__module_name__ = (
-- 
2.43.0


From ffe738b826f9d2b1bf5c5a53b039713d575fefab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 62/79] fix: strict tracing no longer rejects every memoized
 function

---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 76d99d6..a0e802c 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -939,7 +939,7 @@ class Storage:
                 with tracer:
                     if isinstance(tracer, DecTracer):
                         f = track(op.f)
-                        node = tracer.register_call(func=f)
+                        node = tracer.register_call(func=op.f)
                     #! call the function
                     returns = f(*args, **kwargs)
                     if isinstance(tracer, DecTracer):
-- 
2.43.0


From 790fb51b2a3a68d17c9e77efc59ce5d8c31f68ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 63/79] fix: a memoized function can be moved to another module

---
 mandala/deps/versioner.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index 2589d42..e9f9fa6 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -404,7 +404,10 @@ class Versioner:
             for content_version, semantic_version in zip(
                 content_versions, semantic_versions
             ):
-                version = self.versions[component][content_version]
+                version = self.versions.get(component, {}).get(content_version)
+                if version is None:
+                    # (a call of an op of that name in another module)
+                    continue
                 codebase_semantic = self.get_semantic_version(
                     semantic_hashes=codebase_semantic_hashes, support=version.support
                 )
@@ -455,7 +458,10 @@ class Versioner:
             candidates["content_version"].values.tolist(),
             candidates["semantic_version"].values.tolist(),
         ):
-            if semantic_version not in existing_semantic_expansions.keys():
+            if (
+                semantic_version not in existing_semantic_expansions.keys()
+                and content_version in self.versions[component]
+            ):
                 existing_call_version = self.versions[component][content_version]
                 existing_semantic_expansions[
                     semantic_version
-- 
2.43.0


From d43c725d29e6f6926d38b9e072852a21748c04f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 64/79] fix: a call that is computed again after it was dropped
 keeps its new result

---
 mandala/storage.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index a0e802c..f2870e1 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -268,10 +268,11 @@ class Storage:
         """
         NOTE: the given ref may not be in memory, but may still be a new history
         ID, if there was previously another ref with the same content ID but
-        different history ID.
+        different history ID. Conversely, a history ID may get a new content ID
+        when a call that was dropped is computed again.
         """
-        if ref.hid in self.shapes:  # ensure idempotence
-            return
+        if ref.hid in self.shapes and self.shapes[ref.hid].cid == ref.cid:
+            return  # ensure idempotence
         if isinstance(ref, AtomRef):
             if ref.in_memory: #! ONLY save the atom if it is in memory
                 self.atoms[ref.cid] = serialize(ref.obj)
-- 
2.43.0


From b28c1a44fe78cfa55a06217b55344a237baca2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:04 +0000
Subject: [PATCH 65/79] fix: along an edge from a function to a variable,
 follow only the outputs that belong to this edge

---
 mandala/cf.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index b73893b..c7b6a97 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -543,9 +543,17 @@ class ComputationFrame:
                 dst in self.vs
             ):  # this is a variable node; we are looking for the calls that created the hids
                 assert hids <= self.vs[dst]  # make sure the hids are valid
+                creators = {hid: self.creator[hid] for hid in hids if hid in self.creator}
+                # (the call may have other outputs, which belong to other edges)
                 return {
-                    self.creator[hid] for hid in hids if hid in self.creator
-                } & self.fs[src]
+                    call_hid
+                    for hid, call_hid in creators.items()
+                    if call_hid in self.fs[src] and any(
+                        self.calls[call_hid].outputs[name].hid == hid
+                        for name in self.get_names_projecting_to(call_hid, label)
+                        if name in self.calls[call_hid].outputs
+                    )
+                }
             else:  # this is an op node; we are looking for the inputs of the calls that have the hids as outputs
                 assert hids <= self.fs[dst]  # make sure the hids are valid
                 return self.vs[src] & {
-- 
2.43.0


From afb3b56cf2a881dcddac299aacd6392637753913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 66/79] fix: a call found by content keeps its elements'
 histories when another process saves it in the meantime

---
 mandala/storage.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index f2870e1..8ae9eef 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -695,6 +695,24 @@ class Storage:
         current code state is used to resolve the right version of the function
         to use.
         """
+        return self._lookup_call(
+            op=op, inputs=inputs, pre_call_uid=pre_call_uid,
+            code_state=code_state, versioner=versioner, must_version=must_version,
+        )[0]
+
+    def _lookup_call(
+        self,
+        op: Op,
+        inputs: Dict[str, Ref],
+        pre_call_uid: Optional[str] = None,
+        code_state: Optional[CodeState] = None,
+        versioner: Optional[Versioner] = None,
+        must_version: bool = False,
+    ) -> Tuple[Optional[Call], bool]:
+        """
+        Like `lookup_call`, but also return whether the call was found only by
+        its content.
+        """
         if not must_version:
             semantic_version = None
         else:
@@ -705,7 +723,7 @@ class Storage:
             )
             if lookup_outcome is None:
                 logger.debug(f"Could not find a version for {op.name}.")
-                return
+                return None, False
             else:
                 logger.debug(f"Found semantic version {lookup_outcome[1]} for {op.name}.")
                 _, semantic_version = lookup_outcome
@@ -717,11 +735,11 @@ class Storage:
         if self.calls.exists(call_history_id=call_hid):
             call_data = self.calls.get_data(call_history_id=call_hid)
             logger.debug(f"Found call to {op.name} with hid {call_hid}.")
-            return self._get_call_from_data(call_data, in_memory=True)
+            return self._get_call_from_data(call_data, in_memory=True), False
         if op.__structural__:
             # structural calls are cheap to repeat, and doing so gives the 
             # elements of their outputs the right history IDs
-            return None
+            return None, False
         ### if this fails, look up by content ID, and apply the correct history IDs
         call_cid = op.get_call_content_id(
             inputs=inputs, semantic_version=semantic_version
@@ -738,9 +756,9 @@ class Storage:
             for k, v in call_prototype.outputs.items():
                 v.hid = output_history_ids[k]
             call_prototype.inputs = inputs
-            return call_prototype
+            return call_prototype, True
         logger.debug(f"Could not find a call to {op.name} with hid {call_hid} or cid {call_cid}.")
-        return None
+        return None, False
     
     def get_defaults(self, f: Callable) -> Dict[str, Any]:
         return {
@@ -887,7 +905,7 @@ class Storage:
 
         ### check for the call
         pre_call_id = op.get_pre_call_id(wrapped_inputs)
-        call_option = self.lookup_call(
+        call_option, found_by_content = self._lookup_call(
             op=op,
             pre_call_uid=pre_call_id,
             inputs=wrapped_inputs,
@@ -902,9 +920,9 @@ class Storage:
             if not op.__structural__: logger.debug(f"Call to {op.name} with hid {call_hid} already exists.")
             main_call = call_option
             output_calls = []
-            if not self.calls.exists(call_hid):
-                # the call was found by content, so any collections in its
-                # outputs have elements with a different history
+            if found_by_content:
+                # any collections in the outputs have elements with a
+                # different history
                 for k, v in main_call.outputs.items():
                     main_call.outputs[k], calls = self.destruct(v, tp=self.get_ref_type(v))
                     output_calls.extend(calls)
-- 
2.43.0


From 5a306c9d13043f9be635ad8b390f3d3cf91348c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 67/79] fix: a call without inputs and outputs does not make
 saving the context fail

---
 mandala/storage_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 3d717f8..9231ce6 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -746,6 +746,8 @@ class CachedCallStorage:
         self.dirty_hids: Set[str] = set()
 
     def save(self, call: Call):
+        if len(call.inputs) == 0 and len(call.outputs) == 0:
+            return # there is nothing to record
         self.cache.save(call)
         self.dirty_hids.add(call.hid)
 
-- 
2.43.0


From e409ac7c3b41589aa912a001763d3cdef2175bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 68/79] fix: arguments collected by *args and **kwargs are not
 confused with other arguments or outputs of the same name

---
 mandala/storage.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 8ae9eef..aaae9cf 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1,3 +1,4 @@
+import re
 from .common_imports import *
 from tqdm import tqdm
 import datetime
@@ -768,7 +769,8 @@ class Storage:
         }
     
     def parse_args(self, sig: inspect.Signature, args, kwargs, apply_defaults: bool, 
-                   ignore_args: Optional[Tuple[str,...]] = None) -> Tuple[inspect.BoundArguments, Dict[str, Any], Dict[str, Any]]:
+                   ignore_args: Optional[Tuple[str,...]] = None,
+                   output_names: Optional[List[str]] = None) -> Tuple[inspect.BoundArguments, Dict[str, Any], Dict[str, Any]]:
         """
         Given the inputs passed to an @op call (could be wrapped or unwrapped),
         figure out the inputs we should pass to storage functions, their type
@@ -795,6 +797,8 @@ class Storage:
                 new_v = [arg.value if isinstance(arg, _Ignore) else arg for arg in v]
                 ignored_mask = [True if isinstance(arg, _Ignore) else False for arg in v]
                 names = [f'{k}_{i}' for i in range(len(new_v))]
+                # (another parameter may have the same name)
+                names = [f'{k}.{i}' if name in sig.parameters else name for i, name in enumerate(names)]
                 #! update the bound arguments inplace
                 bound_arguments.arguments[k] = tuple(new_v)
                 for name, val, ignored in zip(names, new_v, ignored_mask):
@@ -808,6 +812,14 @@ class Storage:
                 bound_arguments.arguments[k] = new_v
                 for name, val in new_v.items():
                     if not ignored_mask[name]:
+                        # it may be named like another parameter, one of the
+                        # *args, or one of the outputs
+                        if (
+                            name in sig.parameters
+                            or (var_positional is not None and re.fullmatch(rf"{var_positional.name}_\d+", name))
+                            or (name in output_names if output_names is not None else name.startswith("output_"))
+                        ):
+                            name = f"{k}.{name}"
                         storage_inputs[name] = val
                         storage_annotations[name] = var_keyword.annotation
             else:
@@ -1257,6 +1269,7 @@ class Storage:
             kwargs=kwargs,
             apply_defaults=True,
             ignore_args=op.ignore_args,
+            output_names=op.output_names,
         )
 
         if self.mode == "noop":
-- 
2.43.0


From e18faa950cc383fd40e7c9971c1f73ff2003a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 69/79] fix: track the methods of a class that inherits its
 __init__ from another module

---
 mandala/deps/crawler.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mandala/deps/crawler.py b/mandala/deps/crawler.py
index 9d1cad9..434561d 100644
--- a/mandala/deps/crawler.py
+++ b/mandala/deps/crawler.py
@@ -28,13 +28,15 @@ def crawl_obj(
         if isinstance(unwrap_decorators(obj, strict=False), types.BuiltinFunctionType):
             return
         v = extract_func_obj(obj=obj, strict=strict)
-        if v is not unknown_function and v.__module__ != module_name:
-            # exclude non-local functions
+        if v is unknown_function or v.__module__ == module_name:
+            dep_key = (module_name, v.__qualname__)
+            node = CallableNode.from_obj(obj=v, dep_key=dep_key)
+            result[dep_key] = node
+            objs_result[dep_key] = obj
+        elif not isinstance(obj, type):
+            # exclude non-local functions (but a class may be local even if the
+            # `__init__` found above is inherited from another module)
             return
-        dep_key = (module_name, v.__qualname__)
-        node = CallableNode.from_obj(obj=v, dep_key=dep_key)
-        result[dep_key] = node
-        objs_result[dep_key] = obj
     if isinstance(obj, type):
         if include_methods:
             if obj.__module__ != module_name:
-- 
2.43.0


From ab44ff2ec3fec527edccb7c20f8b765587a7714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 70/79] fix: storages of the same database keep each other's
 versions

A storage object loaded the versioner once and overwrote the stored one with it
when it committed: the versions and calls other processes had saved in the
meantime were forgotten, and their calls computed again.
---
 mandala/deps/versioner.py | 21 +++++++++++++++++++
 mandala/storage.py        | 44 ++++++++++++++++++++++++++++++++++++++-
 2 files changed, 64 insertions(+), 1 deletion(-)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index e9f9fa6..3e32bba 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -128,6 +128,27 @@ class Versioner:
         semantic_version = version.semantic_version
         return content_version, semantic_version
 
+    def add_from(self, other: "Versioner"):
+        """
+        Add the components, versions and calls that another versioner of the
+        same codebase knows about.
+        """
+        for component, dag in other.component_dags.items():
+            if component not in self.component_dags:
+                self.component_dags[component] = dag
+                self.nodes[component] = other.nodes[component]
+            else:
+                own_dag = self.component_dags[component]
+                own_dag.commits = {**dag.commits, **own_dag.commits}
+        for component, versions in other.versions.items():
+            self.versions[component] = {**versions, **self.versions.get(component, {})}
+        topology = copy.deepcopy(other.global_topology)
+        topology.nodes.update(self.global_topology.nodes)
+        self.update_global_topology(graph=topology)
+        self.df = pd.concat([other.df, self.df], ignore_index=True).drop_duplicates(
+            subset=["pre_call_uid", "semantic_version", "content_version"]
+        )
+
     def update_global_topology(self, graph: DependencyGraph):
         for node in graph.nodes.values():
             if isinstance(node, (CallableNode, GlobalVarNode)):
diff --git a/mandala/storage.py b/mandala/storage.py
index aaae9cf..22d1a6e 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -120,6 +120,10 @@ class Storage:
         
         self.cached_versioner = None
         self.code_state = None
+        # whether the versioner has changes that were not committed, and what
+        # was in the database when it was last the same as the one in memory
+        self._versioner_changed = False
+        self._versioner_digest: Optional[str] = None
         self.suspended_trace_obj = None
 
         # a list of functions to call when the storage is exited
@@ -231,13 +235,15 @@ class Storage:
                 self.shapes.commit(conn=conn)
                 self.ops.commit(conn=conn)
                 if self.versioned:
-                    self.sources.persistent.set(key='versioner', value=self.sources.cache['versioner'], conn=conn)
+                    digest = self._commit_versioner(conn=conn)
                 self.calls.commit(conn=conn)
         except BaseException:
             # nothing was persisted, so everything is still uncommitted
             for dirty, before in zip(dirty_sets, dirty_before):
                 dirty |= before
             raise
+        if self.versioned:
+            self._versioner_digest, self._versioner_changed = digest, False
 
 
     def __repr__(self):
@@ -979,6 +985,7 @@ class Storage:
                 returns = f(*args, **kwargs)
 
         if must_version_call:
+            self._versioner_changed = True
             # check the trace against the code state hypothesis
             self.cached_versioner.apply_state_hypothesis(
                 hypothesis=self.code_state, trace_result=tracer_option.graph.nodes
@@ -1040,6 +1047,13 @@ class Storage:
     ############################################################################
     @transaction
     def get_versioner(self, conn: Optional[sqlite3.Connection] = None) -> Versioner:
+        if self.cached_versioner is None and not self._versioner_changed:
+            # another storage object may have saved new versions
+            stored = self._get_stored_versioner(conn=conn)
+            digest = self._get_digest(stored)
+            if stored is not None and digest != self._versioner_digest:
+                self.sources.cache["versioner"] = deserialize(stored)
+                self._versioner_digest = digest
         result = self.sources["versioner"]
         if result is None:
             raise ValueError("This storage is not versioned.")
@@ -1050,6 +1064,32 @@ class Storage:
         self.sources["versioner"] = versioner
         self.sources.commit(conn=conn)
 
+    def _get_stored_versioner(self, conn: sqlite3.Connection) -> Optional[bytes]:
+        row = conn.execute("SELECT value FROM sources WHERE key = 'versioner'").fetchone()
+        return row[0] if row is not None else None
+
+    @staticmethod
+    def _get_digest(stored: Optional[bytes]) -> Optional[str]:
+        return None if stored is None else hashlib.sha256(stored).hexdigest()
+
+    def _commit_versioner(self, conn: sqlite3.Connection) -> Optional[str]:
+        """
+        Save the versioner, together with what other storage objects have saved
+        since it was loaded. Return the digest for which the versioner in memory
+        is up to date.
+        """
+        versioner = self.sources.cache["versioner"]
+        stored = self._get_stored_versioner(conn=conn)
+        is_current = stored is None or self._get_digest(stored) == self._versioner_digest
+        if not is_current:
+            # (the one in memory goes with the code state of this context)
+            versioner = copy.deepcopy(versioner)
+            versioner.add_from(deserialize(stored))
+        self.sources.persistent.set(key='versioner', value=versioner, conn=conn)
+        if is_current:
+            return self._get_digest(self._get_stored_versioner(conn=conn))
+        return self._versioner_digest
+
     @property
     def versioned(self) -> bool:
         return self._versioned
@@ -1069,6 +1109,7 @@ class Storage:
         versioner = self.get_versioner(conn=conn)
         code_state = self.guess_code_state(versioner=versioner, conn=conn)
         versioner.sync_codebase(code_state=code_state)
+        self._versioner_changed = True
         return versioner, code_state
 
     @transaction
@@ -1088,6 +1129,7 @@ class Storage:
             code_state=code_state,
         )
         self.sources["versioner"] = versioner
+        self._versioner_changed = True
         return result
 
     @transaction
-- 
2.43.0


From 74a297796682b9d060093ea5b40b0ae817d7d79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 71/79] fix: show changed lines that look like headers of a
 diff

---
 mandala/viz.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mandala/viz.py b/mandala/viz.py
index f78ea34..b79469b 100644
--- a/mandala/viz.py
+++ b/mandala/viz.py
@@ -67,14 +67,16 @@ def _get_diff(current: str, new: str) -> str:
     `new` is prefixed with a '+'.
     """
     lines = []
-    for line in difflib.unified_diff(
+    diff_lines = difflib.unified_diff(
         current.splitlines(),
         new.splitlines(),
         n=2,  # number of lines of context around changes to show
         # fromfile="current", tofile="new"
         lineterm="",
-    ):
-        if line.startswith("@@") or line.startswith("+++") or line.startswith("---"):
+    )
+    for i, line in enumerate(diff_lines):
+        # (only the first two lines are the headers of the files)
+        if i < 2 or line.startswith("@@"):
             continue
         lines.append(line)
     return "\n".join(lines)
@@ -90,14 +92,16 @@ def _get_colorized_diff(
     to `new` is colored green.
     """
     lines = []
-    for line in difflib.unified_diff(
+    diff_lines = difflib.unified_diff(
         current.splitlines(),
         new.splitlines(),
         n=context_lines,  # number of lines of context around changes to show
         # fromfile="current", tofile="new"
         lineterm="",
-    ):
-        if line.startswith("@@") or line.startswith("+++") or line.startswith("---"):
+    )
+    for i, line in enumerate(diff_lines):
+        # (only the first two lines are the headers of the files)
+        if i < 2 or line.startswith("@@"):
             continue
         if line.startswith("-"):
             if style == "inline":
-- 
2.43.0


From fd53c7a203a258512715f3a8ca94d9ca484a86a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 72/79] fix: an interrupted cleanup of references leaves no
 collection without its elements

---
 mandala/storage.py       | 14 ++++++++++----
 mandala/storage_utils.py |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 22d1a6e..57e05b7 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -322,14 +322,21 @@ class Storage:
         else:
             raise NotImplementedError
 
-    def _drop_ref_hid(self, hid: str, verify: bool = False):
+    def _drop_ref_hid(self, hid: str, verify: bool = False, conn: Optional[sqlite3.Connection] = None):
         """
         Internal only function to drop a ref by its hid when it is not connected
         to any calls.
         """
         if verify:
             assert not self.call_storage.exists_ref_hid(hid)
-        self.shapes.drop(hid)
+        self.shapes.drop(hid, conn=conn)
+
+    @transaction
+    def _drop_ref_hids(self, hids: Iterable[str], conn: Optional[sqlite3.Connection] = None):
+        # in one transaction: if a collection was left without its elements,
+        # saving it again would not save them
+        for hid in hids:
+            self._drop_ref_hid(hid, conn=conn)
 
     def _drop_ref(self, cid: str, verify: bool = False):
         """
@@ -347,8 +354,7 @@ class Storage:
         ### first, remove hids that are not connected to any calls
         orphans = self.get_orphans()
         logger.info(f"Cleaning up {len(orphans)} orphaned refs.")
-        for hid in orphans:
-            self._drop_ref_hid(hid)
+        self._drop_ref_hids(orphans)
         ### next, remove cids that are not connected to any refs
         unreferenced_cids = self.get_unreferenced_cids()
         logger.info(f"Cleaning up {len(unreferenced_cids)} unreferenced cids.")
diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 9231ce6..f28a770 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -334,12 +334,12 @@ class CachedDictStorage(DictStorage):
         self.cache.clear()
         self.dirty_keys.clear()
 
-    def drop(self, key: str) -> None:
+    def drop(self, key: str, conn: Optional[sqlite3.Connection] = None) -> None:
         if key in self.cache:
             del self.cache[key]
         if key in self.dirty_keys:
             self.dirty_keys.remove(key) # when we `drop`, we forget this key ever existed
-        self.persistent.drop(key)
+        self.persistent.drop(key, conn=conn)
 
     def exists(self, key: str) -> bool:
         if key in self.cache:
-- 
2.43.0


From c03d8968d1168116bb7697b9a98c1ceae8d3668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 73/79] fix: frames can be made, selected and expanded from
 iterators

---
 mandala/cf.py      | 14 ++++++++------
 mandala/storage.py |  2 ++
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index c7b6a97..b4d6e93 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -611,11 +611,11 @@ class ComputationFrame:
         connecting pairs of these nodes.
         """
         #! must copy all sets etc. to avoid modifying the original CF
-        nodes_not_in_cf = set(nodes) - self.nodes
+        nodes = set(nodes)
+        nodes_not_in_cf = nodes - self.nodes
         if len(nodes_not_in_cf) > 0:
             raise ValueError(f"Nodes {nodes_not_in_cf} not found in the CF")
         res = self.copy()
-        nodes = set(nodes)
         edges = {
             (src, dst, label)
             for src, dst, label in res.edges()
@@ -1161,8 +1161,7 @@ class ComputationFrame:
                 if not recursive:
                     break
             return res if not inplace else None
-        if isinstance(varnames, str):
-            varnames = {varnames}
+        varnames = {varnames} if isinstance(varnames, str) else set(varnames)
         
         expandable_elts = res.get_source_elts() if direction == "back" else res.get_sink_elts()
         expandable_elts = {k: v for k, v in expandable_elts.items() if k in varnames}
@@ -1340,6 +1339,7 @@ class ComputationFrame:
         """
         Return a topological sort of the given nodes
         """
+        nodes = set(nodes)
         return [node for node in self.topsort_modulo_sccs() if node in nodes]
 
     def _sort_df(self, df: pd.DataFrame) -> pd.DataFrame:
@@ -1481,6 +1481,7 @@ class ComputationFrame:
             values = self.storage.unwrap(df.values.tolist())
             return pd.DataFrame(values, columns=df.columns)
         else:
+            skip_cols = set(skip_cols)
             columns_dict = {col: df[col] if col in skip_cols else self.storage.unwrap(df[col].values.tolist()) for col in df.columns}
             return pd.DataFrame(columns_dict)
 
@@ -1829,8 +1830,9 @@ class ComputationFrame:
             return self.select_nodes([indexer])
         elif isinstance(indexer, ComputationFrame):
             raise NotImplementedError()
-        elif all([isinstance(k, str) for k in indexer]):
-            return self.select_nodes(list(sorted(indexer)))
+        names = list(indexer)
+        if all([isinstance(k, str) for k in names]):
+            return self.select_nodes(sorted(names))
     
     def get_reachable_elts(
             self,
diff --git a/mandala/storage.py b/mandala/storage.py
index 57e05b7..f75bfe3 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1289,6 +1289,8 @@ class Storage:
         """
         Main user-facing function to create a computation frame.
         """
+        if not isinstance(source, (Op, Ref, dict)):
+            source = list(source) # it may be an iterator
         if isinstance(source, Op):
             return ComputationFrame.from_op(storage=self, f=source)
         elif isinstance(source, Ref):
-- 
2.43.0


From aa5bcf992c596393dca174e594e39e1509f8dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 74/79] fix: creators and consumers of an iterator of ids

---
 mandala/storage_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index f28a770..b095ce6 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -674,6 +674,7 @@ class SQLiteCallStorage:
     def get_creator_hids(
         self, ref_hids: Iterable[str], conn: Optional[sqlite3.Connection] = None
     ) -> Set[str]:
+        ref_hids = list(ref_hids) # it may be an iterator
         # cursor = conn.execute(f"SELECT DISTINCT call_history_id FROM {self.table_name} WHERE ref_history_id IN ({','.join('?' for _ in hids)})", list(hids))
         cursor = conn.execute(
             f'SELECT DISTINCT call_history_id FROM {self.table_name} WHERE ref_history_id IN ({",".join("?" for _ in ref_hids)}) AND direction = "out"',
@@ -685,6 +686,7 @@ class SQLiteCallStorage:
     def get_consumer_hids(
         self, ref_hids: Iterable[str], conn: Optional[sqlite3.Connection] = None
     ) -> Set[str]:
+        ref_hids = list(ref_hids) # it may be an iterator
         cursor = conn.execute(
             f"SELECT DISTINCT call_history_id FROM {self.table_name} WHERE ref_history_id IN ({','.join('?' for _ in ref_hids)}) AND direction = 'in'",
             list(ref_hids),
@@ -695,6 +697,7 @@ class SQLiteCallStorage:
     def get_input_hids(
         self, call_hids: Iterable[str], conn: Optional[sqlite3.Connection] = None
     ) -> Set[str]:
+        call_hids = list(call_hids) # it may be an iterator
         cursor = conn.execute(
             f"SELECT DISTINCT ref_history_id FROM {self.table_name} WHERE call_history_id IN ({','.join('?' for _ in call_hids)}) AND direction = 'in'",
             list(call_hids),
@@ -705,6 +708,7 @@ class SQLiteCallStorage:
     def get_output_hids(
         self, call_hids: Iterable[str], conn: Optional[sqlite3.Connection] = None
     ) -> Set[str]:
+        call_hids = list(call_hids) # it may be an iterator
         cursor = conn.execute(
             f"SELECT DISTINCT ref_history_id FROM {self.table_name} WHERE call_history_id IN ({','.join('?' for _ in call_hids)}) AND direction = 'out'",
             list(call_hids),
-- 
2.43.0


From 2cc10ee899b1e05dc896c529bb85ad0fdcb58f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 75/79] fix: creating a frame from a dictionary does not change
 the dictionary

---
 mandala/storage.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index f75bfe3..fc6912b 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1298,10 +1298,8 @@ class Storage:
         elif all(isinstance(elt, Ref) for elt in source):
             return ComputationFrame.from_refs(refs=source, storage=self)
         elif isinstance(source, dict):
-            for k in source.keys():
-                if isinstance(source[k], Ref):
-                    source[k] = [source[k]]
-            return ComputationFrame.from_vars(vars=source, storage=self)
+            vars = {k: [v] if isinstance(v, Ref) else v for k, v in source.items()}
+            return ComputationFrame.from_vars(vars=vars, storage=self)
         elif all(isinstance(elt, str) for elt in source):
             # must be hids
             refs = [self.load_ref(hid, in_memory=True) for hid in source]
-- 
2.43.0


From d8977a614530c5054c9d4111142a2f5cd55380ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 76/79] fix: attaching a frame loads the values of its
 references

---
 mandala/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index b4d6e93..143bf86 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1452,7 +1452,7 @@ class ComputationFrame:
     ### evaluation
     ############################################################################
     def attach(self):
-        self.storage.attach(list(self.refs.values()))
+        self.storage.attach(list(self.refs.values()), inplace=True)
 
     def eval_df(self, 
                 df: pd.DataFrame,
-- 
2.43.0


From 58d81890d245713d92de0b78170395ce80a5224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 77/79] fix: selecting subsets does not share the sets of the
 caller with the new frame

---
 mandala/cf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 143bf86..980f5d3 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -673,8 +673,8 @@ class ComputationFrame:
         assert all(elts[node] <= sets[node] for node in elts.keys())
         out = res.out
         inp = res.inp
-        vs = {node: elts[node] for node in res.vnames}
-        fs = {node: elts[node] for node in res.fnames}
+        vs = {node: set(elts[node]) for node in res.vnames}
+        fs = {node: set(elts[node]) for node in res.fnames}
         ref_hids_subset = get_nullable_union(*vs.values())
         call_hids_subset = get_nullable_union(*fs.values())
         refs = {hid: res.refs[hid] for hid in ref_hids_subset}
-- 
2.43.0


From add44ad4a8d6e517d929097c61ce61b995448c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 78/79] fix: the union or intersection of one frame is a new
 frame

---
 mandala/cf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 980f5d3..e895840 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -904,13 +904,13 @@ class ComputationFrame:
     def union(*cfs: "ComputationFrame") -> "ComputationFrame":
         from functools import reduce
 
-        return reduce(ComputationFrame._binary_union, cfs)
+        return reduce(ComputationFrame._binary_union, cfs[1:], cfs[0].copy())
 
     @staticmethod
     def intersection(*cfs: "ComputationFrame") -> "ComputationFrame":
         from functools import reduce
 
-        return reduce(ComputationFrame._binary_intersection, cfs)
+        return reduce(ComputationFrame._binary_intersection, cfs[1:], cfs[0].copy())
 
     def __or__(self, other: "ComputationFrame") -> "ComputationFrame":
         return ComputationFrame._binary_union(self, other)
-- 
2.43.0


From b5a7864fcff28a12b07cb18c1661e5b3c485a18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 79/79] fix: an error while a call is saved does not separate
 it from the calls of its collections

---
 mandala/storage.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index fc6912b..d660c89 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -373,17 +373,24 @@ class Storage:
 
         If the op has not been seen before, it will be saved as well.
         """
-        if self.calls.exists(call.hid):
-            return
-        if not self.ops.exists(key=call.op.name):
-            # save the op
-            logger.debug(f"Caching new op {call.op.name}.")
-            self.ops[call.op.name] = call.op.detached()
-        # (convert the iterator to a list to avoid double iteration)
-        io_refs = list(itertools.chain(call.inputs.values(), call.outputs.values()))
-        for v in io_refs:
-            self.save_ref(v)
-        self.calls.save(call)
+        self.save_calls([call])
+
+    def save_calls(self, calls: Iterable[Call]):
+        """
+        Save several calls. If there is an error, none of them is saved.
+        """
+        new_calls = {call.hid: call for call in calls if not self.calls.exists(call.hid)}
+        for call in new_calls.values():
+            if not self.ops.exists(key=call.op.name):
+                # save the op
+                logger.debug(f"Caching new op {call.op.name}.")
+                self.ops[call.op.name] = call.op.detached()
+            # (convert the iterator to a list to avoid double iteration)
+            io_refs = list(itertools.chain(call.inputs.values(), call.outputs.values()))
+            for v in io_refs:
+                self.save_ref(v)
+        for call in new_calls.values():
+            self.calls.save(call)
     
     def mget_call(self, hids: List[str], in_memory: bool) -> List[Call]:
 
@@ -1344,9 +1351,7 @@ class Storage:
                 storage_tps=storage_tps,
             )
             if config.get("save_calls", False):
-                self.save_call(main_call)
-                for call in calls:
-                    self.save_call(call)
+                self.save_calls([main_call, *calls])
             ord_outputs = op.get_ordered_outputs(main_call.outputs)
             if len(ord_outputs) == 1:
                 return ord_outputs[0]
-- 
2.43.0

