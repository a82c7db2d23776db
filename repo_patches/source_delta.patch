From 8f39e47497f9cafb23820b6d2dbe67e9f810a454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:15 +0000
Subject: [PATCH 01/54] fix: reject non-monotonic partition keys in eager
 partitioning

Only the position of the first occurrence of each key was checked, so that
keys such as [1, 2, 1] were accepted and rows were filed under another key.
---
 zcollection/partitioning/abc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/zcollection/partitioning/abc.py b/zcollection/partitioning/abc.py
index 5eb2fc9..f1573e2 100644
--- a/zcollection/partitioning/abc.py
+++ b/zcollection/partitioning/abc.py
@@ -120,9 +120,15 @@ def unique_and_check_monotony(arr: ArrayLike) -> tuple[NDArray, NDArray]:
     """
     index: NDArray
     indices: NDArray
-
-    index, indices = numpy.unique(arr, axis=0, return_index=True)
-    if not numpy.all(numpy.diff(indices) > 0):
+    inverse: NDArray
+
+    index, indices, inverse = numpy.unique(arr,
+                                           axis=0,
+                                           return_index=True,
+                                           return_inverse=True)
+    # The rank of the keys must never decrease. Checking only the position of
+    # the first occurrence of each key would accept [1, 2, 1].
+    if not numpy.all(numpy.diff(inverse.ravel()) >= 0):
         raise ValueError('index is not monotonic')
     return index, indices
 
-- 
2.43.0


From 2d93b8577a525667c02e66053acaf69e65ffe9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:51 +0000
Subject: [PATCH 02/54] fix: keep the samples just after the inserted period
 when merging time series

The samples dated one time unit after the last inserted one were dropped, and
the merge failed if no sample was left after them.
---
 zcollection/merging/time_series.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/merging/time_series.py b/zcollection/merging/time_series.py
index 099add0..a25405c 100644
--- a/zcollection/merging/time_series.py
+++ b/zcollection/merging/time_series.py
@@ -56,7 +56,7 @@ def _merge_time_series(
         # pylint: disable=comparison-with-callable
         indices = numpy.where(
             # comparison between ndarray and datetime64
-            existing_axis > intersection.end())[0]  # type: ignore
+            existing_axis > intersection.last)[0]  # type: ignore
         # pylint: enable=comparison-with-callable
         return inserted_ds.concat(
             existing_ds.isel({partitioning_dim: indices}), partitioning_dim)
@@ -81,7 +81,7 @@ def _merge_time_series(
 
     # pylint: disable=comparison-with-callable
     # comparison between ndarray and datetime64
-    index = numpy.where(existing_axis > intersection.end())[0]  # type: ignore
+    index = numpy.where(existing_axis > intersection.last)[0]  # type: ignore
     # pylint: enable=comparison-with-callable
     after: dataset.Dataset = existing_ds.isel(
         {partitioning_dim: slice(index[0], index[-1] + 1, None)})
-- 
2.43.0


From da5d7c2439825040724838f2e6f14a966d9fc284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:42 +0000
Subject: [PATCH 03/54] fix: delete rows of datasets holding variables without
 the deleted axis

---
 zcollection/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 5fd2dbc..2a6aac6 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -149,7 +149,7 @@ def _delete_delayed_vars(self: Dataset, indexer: slice | Sequence[int],
             var,  # type: ignore[arg-type]
             dask.array.routines.delete(var.array, indexer,
                                        var.dimensions.index(axis)))
-        for var in self.variables.values()
+        if axis in var.dimensions else var for var in self.variables.values()
     ]
 
 
@@ -160,7 +160,7 @@ def _delete_vars(self: Dataset, indexer: slice | Sequence[int],
         _duplicate_array(
             var,  # type: ignore[arg-type]
             numpy.delete(var.array, indexer, var.dimensions.index(axis)))
-        for var in self.variables.values()
+        if axis in var.dimensions else var for var in self.variables.values()
     ]
 
 
-- 
2.43.0


From 5fcba2410d21accfc50fad976dfd468bf7443bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:42 +0000
Subject: [PATCH 04/54] fix: a rejected merge of datasets leaves the dataset
 unchanged

---
 zcollection/dataset.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 2a6aac6..f78f346 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -699,13 +699,10 @@ class Dataset:
         if self.delayed != other.delayed:
             raise ValueError('cannot merge delayed and non-delayed data')
 
-        # Merge the variables
-        for name, var in other.variables.items():
-
-            # It's impossible to merge a variable with itself.
+        # It's impossible to merge a variable with itself.
+        for name in other.variables:
             if name in self.variables:
                 raise ValueError(f'variable {name} already exists')
-            self.variables[name] = var
 
         # If the dataset has common dimensions, they must be identical.
         same_dims: set[str] = set(self.dimensions) & set(other.dimensions)
@@ -713,6 +710,9 @@ class Dataset:
                                  for dim in same_dims):
             raise ValueError(f'dimensions {same_dims} are not identical')
 
+        # Merge the variables
+        self.variables.update(other.variables)
+
         # Merge the dimensions.
         self.dimensions.update(other.dimensions)
 
-- 
2.43.0


From 2e2a9dc23cc212bd75cec28c5b5a3a0cbbb6a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:42 +0000
Subject: [PATCH 05/54] fix: DelayedArray.persist replaced the array by a tuple

---
 zcollection/variable/delayed_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/variable/delayed_array.py b/zcollection/variable/delayed_array.py
index e9da492..c4745cf 100644
--- a/zcollection/variable/delayed_array.py
+++ b/zcollection/variable/delayed_array.py
@@ -238,7 +238,7 @@ class DelayedArray(Variable):
         Returns:
             The variable
         """
-        self.array = dask.base.persist(self.array, **kwargs)
+        self.array, = dask.base.persist(self.array, **kwargs)
         return self
 
     def compute(self, **kwargs) -> NDArray | NDMaskedArray:
-- 
2.43.0


From ee44a53d135e56ac1e6858e3b684557f7711432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:42 +0000
Subject: [PATCH 06/54] fix: do not ignore the failure of a concatenation of
 variables

The error raised by numpy or dask was mistaken for a missing dimension and the
data to append was silently dropped.
---
 zcollection/variable/abc.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/zcollection/variable/abc.py b/zcollection/variable/abc.py
index 01aa236..cfef892 100644
--- a/zcollection/variable/abc.py
+++ b/zcollection/variable/abc.py
@@ -79,17 +79,6 @@ def concat(
 
     try:
         axis: int = self.dimensions.index(dim)
-        return new_variable(
-            type(self),
-            name=self.name,
-            array=concatenate((self.array, *(item.array for item in other)),
-                              axis=axis),
-            dimensions=self.dimensions,
-            attrs=self.attrs,
-            compressor=self.compressor,
-            fill_value=self.fill_value,
-            filters=self.filters,
-        )
     except ValueError:
         # If the concatenation dimension is not within the dimensions of the
         # variable, then the original variable is returned (i.e.
@@ -102,6 +91,17 @@ def concat(
                             compressor=self.compressor,
                             fill_value=self.fill_value,
                             filters=self.filters)
+    return new_variable(
+        type(self),
+        name=self.name,
+        array=concatenate((self.array, *(item.array for item in other)),
+                          axis=axis),
+        dimensions=self.dimensions,
+        attrs=self.attrs,
+        compressor=self.compressor,
+        fill_value=self.fill_value,
+        filters=self.filters,
+    )
 
 
 def not_equal(first: Any, second: Any) -> bool:
-- 
2.43.0


From 4853957151db8dbaf6e4a5fb6098caeab7a59990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:59 +0000
Subject: [PATCH 07/54] fix: splitting an empty sequence yields nothing

---
 zcollection/dask_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zcollection/dask_utils.py b/zcollection/dask_utils.py
index 40c6b75..40ed837 100644
--- a/zcollection/dask_utils.py
+++ b/zcollection/dask_utils.py
@@ -68,10 +68,13 @@ def split_sequence(sequence: Sequence[Any],
     Returns:
         Iterator of sequences.
     """
-    sections = len(sequence) if sections is None else sections
-    if sections <= 0:
-        raise ValueError('The number of sections must be greater than zero.')
     length: int = len(sequence)
+    if sections is not None and sections <= 0:
+        raise ValueError('The number of sections must be greater than zero.')
+    # Nothing to split.
+    if length == 0:
+        return
+    sections = length if sections is None else sections
     sections = min(sections, length)
 
     size: int
-- 
2.43.0


From 31754c53d4b245137343b6b74323898f2fe51d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:15 +0000
Subject: [PATCH 08/54] fix: update no longer alters the list of selected
 variables of the caller

---
 zcollection/collection/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index ee83f64..22d9844 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -545,8 +545,10 @@ class Collection(ReadOnlyCollection):
         # If depth is not 0, the variables updated must be in the selected
         # variables.
         if depth != 0 and selected_variables is not None:
-            selected_variables += list(
-                set(variables) - set(selected_variables))
+            selected_variables = [
+                *selected_variables,
+                *(set(variables) - set(selected_variables))
+            ]
 
         _LOGGER.info('Updating of the (%s) variable in the collection',
                      ', '.join(repr(item) for item in variables))
-- 
2.43.0


From a85058f461113edbd06dc2dbbcae449f500f9b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:42 +0000
Subject: [PATCH 09/54] fix: partitions stored below directories named like
 partition keys

---
 zcollection/collection/abc.py   | 2 +-
 zcollection/merging/__init__.py | 5 ++++-
 zcollection/partitioning/abc.py | 7 ++++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/zcollection/collection/abc.py b/zcollection/collection/abc.py
index e7d5bd9..9f415df 100644
--- a/zcollection/collection/abc.py
+++ b/zcollection/collection/abc.py
@@ -362,7 +362,7 @@ class ReadOnlyCollection:
         yield from (self._relative_path(item) if relative else item
                     for item in partitions
                     if (item != self._immutable and self._is_selected(
-                        item.replace(base_dir, '').split(sep), expr)))
+                        item.split(sep), expr)))
 
     # pylint: disable=duplicate-code
     # false positive, no code duplication
diff --git a/zcollection/merging/__init__.py b/zcollection/merging/__init__.py
index 7a39e3e..b2fbaf1 100644
--- a/zcollection/merging/__init__.py
+++ b/zcollection/merging/__init__.py
@@ -89,7 +89,10 @@ def _rename(
 
 def _extract_root_dirname(dirname: str, sep: str) -> str:
     """Extracts the root directory name from a partition name."""
-    parts = filter(lambda x: '=' not in x, dirname.split(sep))
+    parts: list[str] = dirname.split(sep)
+    # Only the last components of the path describe the partition.
+    while len(parts) > 1 and '=' in parts[-1]:
+        parts.pop()
     return sep.join(parts)
 
 
diff --git a/zcollection/partitioning/abc.py b/zcollection/partitioning/abc.py
index f1573e2..3ca03e3 100644
--- a/zcollection/partitioning/abc.py
+++ b/zcollection/partitioning/abc.py
@@ -266,7 +266,12 @@ class Partitioning(metaclass=abc.ABCMeta):
 
     def _regex(self) -> re.Pattern:
         """Return a regular expression that matches the partitioning scheme."""
-        return re.compile('.'.join(f'({item})=(.*)' for item in self._keys()))
+        # The partition is described by the last components of the path: the
+        # directories containing the partitions can have any name.
+        return re.compile(r'(?:^|[/\\])' +
+                          r'[/\\]'.join(rf'({item})=([^/\\]*)'
+                                        for item in self._keys()) +
+                          r'[/\\]?$')
 
     @abc.abstractmethod
     def _split(
-- 
2.43.0


From c064f4b94742d33aea207f6450889e583b498fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:34 +0000
Subject: [PATCH 10/54] fix: split off the immutable variables by the
 partitioned dimension, not by the name of the axis variable

---
 zcollection/collection/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 22d9844..2fe283f 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -379,11 +379,13 @@ class Collection(ReadOnlyCollection):
             # On the first call, we store the immutable variables in
             # a directory located at the root of the collection.
             if not self.fs.exists(self._immutable):
-                _write_immutable_dataset(ds, self.axis, self._immutable,
-                                         self.fs, self.synchronizer)
+                _write_immutable_dataset(ds, self.partition_properties.dim,
+                                         self._immutable, self.fs,
+                                         self.synchronizer)
 
             # Remove the variables that should not be partitioned.
-            ds = ds.select_variables_by_dims((self.axis, ))
+            ds = ds.select_variables_by_dims(
+                (self.partition_properties.dim, ))
 
         # Process the partitions to insert or update by batches to avoid
         # memory issues.
-- 
2.43.0


From a4e1cbc53e430c3453cf4712dd3ff11c23aa54eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:34 +0000
Subject: [PATCH 11/54] fix: compare the creation date of the partitions in the
 same time zone

---
 zcollection/collection/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 2fe283f..0dc99c6 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -440,7 +440,7 @@ class Collection(ReadOnlyCollection):
             >>> collection.drop_partitions(
             ...     timedelta=datetime.timedelta(days=30))
         """
-        now: datetime.datetime = datetime.datetime.now()
+        now = datetime.datetime.now(tz=datetime.timezone.utc)
         client: dask.distributed.Client = dask_utils.get_client()
         folders = list(self.partitions(filters=filters, lock=True))
 
@@ -453,9 +453,8 @@ class Collection(ReadOnlyCollection):
             """Return whether the partition was created before the
             timedelta."""
             created: datetime.datetime = self.fs.created(path)
-            if created.tzinfo is not None:
-                created = created.replace(tzinfo=None)
-            return now - created > timedelta
+            # A naive date is expressed in local time.
+            return now - created.astimezone() > timedelta
 
         if timedelta is not None:
             folders = list(
-- 
2.43.0


From 38c5b6d328080c75fcc04a8c01608583072cedf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:03 +0000
Subject: [PATCH 12/54] fix: add or drop a variable of an empty collection

---
 zcollection/collection/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/abc.py b/zcollection/collection/abc.py
index 9f415df..11b8232 100644
--- a/zcollection/collection/abc.py
+++ b/zcollection/collection/abc.py
@@ -674,7 +674,7 @@ class ReadOnlyCollection:
         """
         partitions: list[str] = [*self.partitions(filters=filters, **kwargs)]
         return dask.bag.core.from_sequence(seq=partitions,
-                                           npartitions=len(partitions))
+                                           npartitions=len(partitions) or None)
 
     def iterate_on_records(
         self,
-- 
2.43.0


From 72d0d0cf71f9f86574471856ab404b2b84c5cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:03 +0000
Subject: [PATCH 13/54] fix: refuse to drop the axis of the collection

---
 zcollection/collection/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 0dc99c6..81bde49 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -610,6 +610,9 @@ class Collection(ReadOnlyCollection):
         if variable in self.partitioning.variables:
             raise ValueError(
                 f'The variable {variable!r} is part of the partitioning.')
+        if variable == self.axis:
+            raise ValueError(
+                f'The variable {variable!r} is the axis of the collection.')
         if variable not in self.metadata.variables:
             raise ValueError(
                 f'The variable {variable!r} does not exist in the collection.')
-- 
2.43.0


From 01f013ecafd69645f0f3c82b4d827416ef85f6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:41 +0000
Subject: [PATCH 14/54] fix: validate_partitions does not modify a read-only
 collection

---
 zcollection/collection/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 81bde49..0a114bd 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -778,7 +778,13 @@ class Collection(ReadOnlyCollection):
 
         Returns:
             A list of invalid partitions.
+
+        Raises:
+            io.UnsupportedOperation: If the invalid partitions must be removed
+                from a collection opened in read-only mode.
         """
+        if fix and self.is_readonly():
+            self._unsupported_operation()
         partitions = tuple(self.partitions(filters=filters))
         if not partitions:
             return []
-- 
2.43.0


From 658537acbabc9a8922d5dd3440767d6883309c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:25 +0000
Subject: [PATCH 15/54] fix: copy the immutable variables, on the file system
 of the collection by default

---
 zcollection/collection/__init__.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 0a114bd..7f6081c 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -728,7 +728,7 @@ class Collection(ReadOnlyCollection):
         """
         _LOGGER.info('Copying of the collection to %r', target)
         if filesystem is None:
-            filesystem = fs_utils.get_fs(target)
+            filesystem = self.fs
         client: dask.distributed.Client = dask_utils.get_client()
         npartitions = npartitions or dask_utils.dask_workers(client,
                                                              cores_only=True)
@@ -751,8 +751,16 @@ class Collection(ReadOnlyCollection):
             tuple(map(lambda arg: partial(*arg), args))
 
         client.gather(client.map(worker_task, args))
-        # Then the remaining files in the root directory (config, metadata,
-        # etc.)
+        # Then the immutable dataset and the remaining files in the root
+        # directory (config, metadata, etc.)
+        filesystem.makedirs(target, exist_ok=True)
+        if self._immutable is not None and self.fs.exists(self._immutable):
+            partial(
+                self._immutable,
+                fs_utils.join_path(
+                    target,
+                    os.path.relpath(self._immutable,
+                                    self.partition_properties.dir)))
         fs_utils.copy_files([
             item['name']
             for item in self.fs.listdir(self.partition_properties.dir,
-- 
2.43.0


From b77e092aca16a3a76c766a4d4f24ec9c8d9c2f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:51 +0000
Subject: [PATCH 16/54] fix: keep the data types of the keys in the
 configuration of the sequences

---
 zcollection/partitioning/sequence.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/zcollection/partitioning/sequence.py b/zcollection/partitioning/sequence.py
index 194c6ea..190859c 100644
--- a/zcollection/partitioning/sequence.py
+++ b/zcollection/partitioning/sequence.py
@@ -85,6 +85,18 @@ class Sequence(abc.Partitioning):
     #: The ID of the partitioning scheme.
     ID: ClassVar[str] = 'Sequence'
 
+    def get_config(self) -> dict[str, Any]:
+        """Return the configuration of the partitioning scheme.
+
+        Returns:
+            The configuration of the partitioning scheme.
+        """
+        config: dict[str, Any] = super().get_config()
+        # The default data types are not stored.
+        if set(self._dtype) != {'int64'}:
+            config['dtype'] = self._dtype
+        return config
+
     # pylint: disable=arguments-differ
     # False positive: `self` is used in the signature.
     @staticmethod
-- 
2.43.0


From d1fb6bcae48af004de6d305527ea7afc9286e985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:37 +0000
Subject: [PATCH 17/54] fix: load the immutable variables along with the
 overlapping partitions

---
 zcollection/collection/detail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index d2cb9fe..04c0849 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -243,7 +243,7 @@ def _load_dataset_with_overlap(
 
     if immutable:
         zds.merge(
-            open_zarr_group(partition,
+            open_zarr_group(immutable,
                             fs,
                             delayed=delayed,
                             selected_variables=selected_variables))
-- 
2.43.0


From e0db501037387dd23775ffb98a3b3443d08a0bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:37 +0000
Subject: [PATCH 18/54] fix: infer the updated variables from a dataset holding
 the immutable variables

---
 zcollection/collection/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 7f6081c..5499763 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -38,6 +38,7 @@ from .abc import PartitionFilter, ReadOnlyCollection
 from .callable_objects import UpdateCallable, WrappedPartitionCallable
 from .detail import (
     _insert,
+    _load_dataset,
     _try_infer_callable,
     _wrap_update_func,
     _wrap_update_func_with_overlap,
@@ -89,11 +90,10 @@ def _infer_callable(
         return ()
 
     with collection.synchronizer:
-        zds: dataset.Dataset = storage.open_zarr_group(
-            one_partition,
-            collection.fs,
-            delayed=delayed,
-            selected_variables=selected_variables)
+        zds: dataset.Dataset = _load_dataset(delayed, collection.fs,
+                                             collection._immutable,
+                                             one_partition,
+                                             selected_variables)
     func_result: dict[str, Any]
     func_result = _try_infer_callable(func, zds,
                                       collection.partition_properties.dim,
-- 
2.43.0


From be76f4e69401f215a34fe745f77789891d579d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:37 +0000
Subject: [PATCH 19/54] fix: a refused insertion does not store its immutable
 variables

---
 zcollection/collection/__init__.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 5499763..fc9ae99 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -373,17 +373,9 @@ class Collection(ReadOnlyCollection):
         ds = ds.set_for_insertion(self.metadata)
         client: dask.distributed.Client = dask_utils.get_client()
 
-        # If the dataset contains variables that should not be partitioned.
+        # Remove the variables that should not be partitioned.
+        immutable_ds: dataset.Dataset = ds
         if self._immutable is not None:
-
-            # On the first call, we store the immutable variables in
-            # a directory located at the root of the collection.
-            if not self.fs.exists(self._immutable):
-                _write_immutable_dataset(ds, self.partition_properties.dim,
-                                         self._immutable, self.fs,
-                                         self.synchronizer)
-
-            # Remove the variables that should not be partitioned.
             ds = ds.select_variables_by_dims(
                 (self.partition_properties.dim, ))
 
@@ -397,6 +389,16 @@ class Collection(ReadOnlyCollection):
                 raise ValueError('The number of partitions must be positive')
             npartitions = len(partitions) // npartitions + 1
 
+        # On the first call, once the dataset has been accepted, we store the
+        # variables that should not be partitioned in a directory located at
+        # the root of the collection.
+        if self._immutable is not None and not self.fs.exists(
+                self._immutable):
+            _write_immutable_dataset(immutable_ds,
+                                     self.partition_properties.dim,
+                                     self._immutable, self.fs,
+                                     self.synchronizer)
+
         scattered_ds: Any = client.scatter(ds)
         for sequence in dask_utils.split_sequence(partitions, npartitions):
             futures: list[dask.distributed.Future] = [
-- 
2.43.0


From 8d8d2b5ada599f5fda325133fea14ec049853701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:48 +0000
Subject: [PATCH 20/54] fix: overlap of a single partition of a view

---
 zcollection/view/detail.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 4892d73..5fd9f55 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -342,7 +342,8 @@ def _select_overlap(
     # Build the dataset for the selected partitions.
     groups: list[dataset.Dataset] = [ds for ds, _ in selected_datasets]
     zds: dataset.Dataset = groups.pop(0)
-    zds = zds.concat(groups, view_ref.partition_properties.dim)
+    if groups:
+        zds = zds.concat(groups, view_ref.partition_properties.dim)
 
     return zds, calculate_slice(selected_datasets)
 
-- 
2.43.0


From c6b804bf0c6293b9b515b205e137c9af5265d82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:48 +0000
Subject: [PATCH 21/54] fix: add_variable of a view records the variable if and
 only if it is accepted

---
 zcollection/view/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index f878511..4361a08 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -258,9 +258,9 @@ class View:
                 or variable.name in self.metadata.variables):
             raise ValueError(f'Variable {variable.name} already exists')
         client: dask.distributed.Client = dask_utils.get_client()
-        self.metadata.add_variable(variable)
         template: meta.Variable = \
             self.view_ref.metadata.search_same_dimensions_as(variable)
+        self.metadata.add_variable(variable)
 
         existing_partitions: set[str] = {
             pathlib.Path(path).relative_to(self.base_dir).as_posix()
@@ -269,6 +269,7 @@ class View:
 
         if len(existing_partitions) == 0:
             _LOGGER.info('No partitions found, skipping variable creation')
+            self._write_config()
             return
 
         args = filter(lambda item: item[0] in existing_partitions,
@@ -290,6 +291,7 @@ class View:
                            template=template.name,
                            variable=variable))
         except Exception:
+            self.metadata.variables.pop(variable.name)
             storage.execute_transaction(
                 client, self.synchronizer,
                 client.map(_drop_zarr_zarr,
-- 
2.43.0


From 24302392964263fecff449e78c4196869fd99bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:48 +0000
Subject: [PATCH 22/54] fix: synchronize a view on an empty collection

---
 zcollection/view/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 4361a08..87066a1 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -752,7 +752,7 @@ class View:
         return len(
             tuple(
                 filter(lambda item: item is not None,
-                       unsynchronized_partition))) == 0
+                       unsynchronized_partition or []))) == 0
 
     def sync(
         self,
@@ -804,5 +804,5 @@ class View:
             dict(self.view_ref.partitioning.parse(
                 item))  # type: ignore[arg-type] # item is filtered
             for item in filter(lambda item: item is not None,
-                               synchronized_partition))
+                               synchronized_partition or []))
         return lambda item: item in partition_ids
-- 
2.43.0


From 68a2bae5479d711359ae05e92a6c0ddf589eb8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:48 +0000
Subject: [PATCH 23/54] fix: sync creates the variables of the partitions it
 adds to a view

---
 zcollection/view/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 87066a1..250fe97 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -785,8 +785,9 @@ class View:
         if filters is not None:
             self.filters = filters
             self._write_config()
-            self._init_partitions(filters)
 
+        # The partitions missing from the view are created, along with their
+        # variables.
         partitions = tuple(self.view_ref.partitions(relative=True))
         _LOGGER.info('%d partitions to synchronize', len(partitions))
 
-- 
2.43.0


From ac83540fd8f713692705925db6dbdf81a97f2aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:53 +0000
Subject: [PATCH 24/54] fix: updating an index forgets the partitions that are
 no longer indexed

---
 zcollection/indexing/abc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 22ab1e1..24ebc7d 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -273,6 +273,9 @@ class Indexer(abc.ABC):
         # List of new partitions indexed.
         partitions = []
         for partition, data in bag.compute():
+            # Memoize the updated partitions.
+            partitions.append(tuple(
+                (name, value) for name, value in partition))
             length = data.size
             # If the current item is empty, skip it.
             if length == 0:
@@ -287,9 +290,6 @@ class Indexer(abc.ABC):
                 (name,
                  pyarrow.nulls(length, type=self._type[name]).fill_null(value))
                 for name, value in partition)
-            # Memoize the updated partitions.
-            partitions.append(tuple(
-                (name, value) for name, value in partition))
             tables.append(pyarrow.Table.from_pydict(data))
 
         # If no new data, skip the update.
-- 
2.43.0


From 6e54a6437069613edfd8870dde3e68dc50fc9249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:53 +0000
Subject: [PATCH 25/54] fix: query of an index whose slices enclose one another

---
 zcollection/indexing/abc.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 24ebc7d..f10cad6 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -376,7 +376,19 @@ class Indexer(abc.ABC):
 
         # Convert columns of the slice definition to numpy arrays.
         start = table[self.START].to_numpy()
-        stop = table[self.STOP].to_numpy()
+        stop = table[self.STOP].to_numpy().copy()
+
+        # First rows of the groups sharing the same keys.
+        groups: Any = [
+            numpy.where(numpy.roll(values, 1) != values)[0]
+            for values in data.values()
+        ]
+        bounds = numpy.unique(numpy.concatenate([[0], [len(table)], *groups]))
+
+        # A slice may enclose the following ones: in each group, a slice
+        # extends as far as the farthest of the slices that precede it.
+        for ix0, ix1 in zip(bounds[:-1], bounds[1:]):
+            stop[ix0:ix1] = numpy.maximum.accumulate(stop[ix0:ix1])
 
         # Calculate the indexes of each contiguous slice.
         # index = [0,     1, ...,   69,    70, ...,   134]
@@ -388,10 +400,7 @@ class Indexer(abc.ABC):
                        [len(table)]]
 
         # Adds the chunks corresponding to the partitioning keys
-        chunks += [
-            numpy.where(numpy.roll(values, 1) != values)[0]
-            for values in data.values()
-        ]
+        chunks += groups
 
         # Finally, we build the list of indexes of the different chunks found.
         chunks = numpy.unique(numpy.concatenate(chunks))
-- 
2.43.0


From f05a78974ffda96ce7b3303a1444edd0eb37ec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:53 +0000
Subject: [PATCH 26/54] fix: query a byte string in an index

---
 zcollection/indexing/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index f10cad6..2a02183 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -446,7 +446,7 @@ class Indexer(abc.ABC):
 
         # Transform the columns values into a list if they are not iterable.
         values = {
-            k: [v] if not isinstance(v, Iterable) else v
+            k: [v] if isinstance(v, bytes) or not isinstance(v, Iterable) else v
             for k, v in columns.items()
         }
 
-- 
2.43.0


From 16d274ddeaf2bbb56cf7463073ecf6f3f4d22db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:18 +0000
Subject: [PATCH 27/54] fix: apply the filters when a view is loaded with an
 indexer

---
 zcollection/view/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 250fe97..ccc142f 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -370,7 +370,7 @@ class View:
                     self.view_ref,
                     filters,
                     indexer,
-                    partitions=self.partitions()))
+                    partitions=self.partitions(filters=filters)))
             if len(arguments) == 0:
                 return None
         else:
-- 
2.43.0


From da071575616b3eee80231062774d1dbc6b77559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:18 +0000
Subject: [PATCH 28/54] fix: apply the indexer to the variables of a view
 selected alone

---
 zcollection/view/detail.py | 48 ++++++++++++++------------------------
 1 file changed, 17 insertions(+), 31 deletions(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 5fd9f55..c33780c 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -182,42 +182,28 @@ def _load_one_dataset(
     if zds is None:
         return None
 
+    view_variables: list[dataset.Variable] = [
+        open_zarr_array(
+            zarr.open(  # type: ignore[arg-type]
+                fs.get_mapper(join_path(base_dir, partition, variable)),
+                mode='r',
+            ),
+            variable,
+            delayed=delayed) for variable in variables
+    ]
+
     # If the user has not selected any variables in the reference view. In this
     # case, the dataset is built from all the variables selected in the view.
     if len(zds.dimensions) == 0:
-        return dataset.Dataset(
-            [
-                open_zarr_array(
-                    zarr.open(  # type: ignore[arg-type]
-                        fs.get_mapper(join_path(base_dir, partition,
-                                                variable)),
-                        mode='r',
-                    ),
-                    variable,
-                    delayed=delayed) for variable in variables
-            ],
-            attrs=zds.attrs), partition
-
-    # pylint: disable=expression-not-assigned
-    # We use the set notation to evaluate the generator.
-    {
-        zds.add_variable(  # type: ignore[func-returns-value]
-            item.metadata(),
-            item.array,
-        )
-        for item in (
-            open_zarr_array(
-                zarr.open(  # type: ignore[arg-type]
-                    fs.get_mapper(join_path(base_dir, partition, variable)),
-                    mode='r',
-                ),
-                variable,
-                delayed=delayed) for variable in variables)
-    }
-    # pylint: enable=expression-not-assigned
+        zds = dataset.Dataset(view_variables,
+                              attrs=zds.attrs,
+                              delayed=delayed)
+    else:
+        for item in view_variables:
+            zds.add_variable(item.metadata(), item.array)
 
     # Apply indexing if needed.
-    if len(slices):
+    if len(slices) and len(zds.dimensions):
         dim: str = view_ref.partition_properties.dim
         ds_list: list[dataset.Dataset] = [
             zds.isel({dim: indexer}) for indexer in slices
-- 
2.43.0


From 7aa1ce3605c302493dd00ff07cca7a6e94d2730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:15 +0000
Subject: [PATCH 29/54] fix: replace a partition without exposing its temporary
 directory nor losing it on failure

---
 zcollection/merging/__init__.py | 43 +++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/zcollection/merging/__init__.py b/zcollection/merging/__init__.py
index b2fbaf1..42a8c4c 100644
--- a/zcollection/merging/__init__.py
+++ b/zcollection/merging/__init__.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 
 from typing import Protocol
 import hashlib
+import os
 import shutil
 
 import fsspec
@@ -77,10 +78,21 @@ def _rename(
     if isinstance(fs, fsspec.implementations.local.LocalFileSystem):
         # fspec implementation of the local file system, copy the source
         # directory to the destination directory and remove the source
-        # directory. This is not efficient. So we use the shutil
-        # implementation to rename the directory.
-        shutil.rmtree(dest, ignore_errors=True)
-        shutil.move(source, dest)
+        # directory. This is not efficient. So we rename the directory. The
+        # existing directory is deleted once it has been replaced: if an
+        # operation fails, it is put back.
+        if not os.path.exists(dest):
+            os.rename(source, dest)
+            return
+        backup: str = f'{source}.old'
+        shutil.rmtree(backup, ignore_errors=True)
+        os.rename(dest, backup)
+        try:
+            os.rename(source, dest)
+        except OSError:
+            os.rename(backup, dest)
+            raise
+        shutil.rmtree(backup, ignore_errors=True)
         return
 
     fs.rm(dest, recursive=True)
@@ -112,29 +124,30 @@ def _update_fs(
         synchronizer: The instance handling access to critical resources.
     """
     # Building a temporary directory to store the new data. The name of the
-    # temporary directory is the hash of the partition name.
+    # temporary directory is the hash of the partition name. It is hidden, so
+    # that it is never taken for a partition.
     temp: str = fs_utils.join_path(
         _extract_root_dirname(dirname, fs.sep),
-        hashlib.sha256(dirname.encode()).hexdigest())
+        '.' + hashlib.sha256(dirname.encode()).hexdigest())
     if fs.exists(temp):
         fs.rm(temp, recursive=True)
 
-    # Initializing Zarr group
-    zarr.storage.init_group(store=fs.get_mapper(temp))
-
-    # Writing new data.
     try:
-        # The synchronization is done by the caller.
+        # Initializing Zarr group
+        zarr.storage.init_group(store=fs.get_mapper(temp))
+
+        # Writing new data. The synchronization is done by the caller.
         storage.write_zarr_group(zds, temp, fs, synchronizer or sync.NoSync())
+
+        # Rename the existing entry on the file system
+        _rename(fs, temp, dirname)
     except Exception:
         # The "write_zarr_group" method throws the exception if all scheduled
         # tasks are finished. So here we can delete the temporary directory.
-        fs.rm(temp, recursive=True)
+        if fs.exists(temp):
+            fs.rm(temp, recursive=True)
         raise
 
-    # Rename the existing entry on the file system
-    _rename(fs, temp, dirname)
-
 
 def perform(
     ds_inserted: dataset.Dataset,
-- 
2.43.0


From dcadd464623267c3276c39fa4f2a39f11eb37818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:15 +0000
Subject: [PATCH 30/54] fix: report a partition without metadata as invalid

---
 zcollection/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index af8d28f..6464581 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -468,6 +468,6 @@ def check_zarr_group(
         for _, array in store.arrays():
             data: NDArray = array[...]  # type: ignore
             del data
-    except (ValueError, TypeError, RuntimeError):
+    except (KeyError, ValueError, TypeError, RuntimeError):
         return False
     return True
-- 
2.43.0


From 20bf9a575f3e999335c012e93665244482b8eadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:15 +0000
Subject: [PATCH 31/54] fix: insert into a partition left incomplete

---
 zcollection/collection/detail.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index 04c0849..5ce38ac 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -430,7 +430,8 @@ def _insert(
     # The current partition does not exist, so we need to create
     # it and insert the dataset.
     try:
-        zarr.storage.init_group(store=fs.get_mapper(dirname))
+        zarr.storage.init_group(store=fs.get_mapper(dirname),
+                                overwrite=fs.isdir(dirname))
 
         # The synchronization is done by the caller.
         write_zarr_group(zds.isel(indexer), dirname, fs, sync.NoSync())
-- 
2.43.0


From 2cefe2adc8d2bb68dbff494a64d862843d5b9f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:15 +0000
Subject: [PATCH 32/54] fix: write again the variables without the partitioned
 dimension left incomplete

---
 zcollection/collection/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index fc9ae99..29ac106 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -393,7 +393,7 @@ class Collection(ReadOnlyCollection):
         # variables that should not be partitioned in a directory located at
         # the root of the collection.
         if self._immutable is not None and not self.fs.exists(
-                self._immutable):
+                fs_utils.join_path(self._immutable, '.zmetadata')):
             _write_immutable_dataset(immutable_ds,
                                      self.partition_properties.dim,
                                      self._immutable, self.fs,
-- 
2.43.0


From f52d115a0ec49f639c5d518a5c5f267d99df0d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:15 +0000
Subject: [PATCH 33/54] fix: remove the variables without the partitioned
 dimension left incomplete

---
 zcollection/collection/__init__.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 29ac106..d8ca108 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -68,11 +68,17 @@ def _write_immutable_dataset(
         'The dataset to insert does not contain any variable '
         'that is not split.')
     _LOGGER.info('Creating the immutable dataset: %s', path)
-    storage.write_zarr_group(immutable_dataset,
-                             path,
-                             fs,
-                             synchronizer,
-                             distributed=False)
+    try:
+        storage.write_zarr_group(immutable_dataset,
+                                 path,
+                                 fs,
+                                 synchronizer,
+                                 distributed=False)
+    except Exception:
+        # An incomplete dataset would never be completed.
+        if fs.exists(path):
+            fs.rm(path, recursive=True)
+        raise
 
 
 def _infer_callable(
-- 
2.43.0


From c28aae06a04317516ddace841a6d993cdba684a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:15 +0000
Subject: [PATCH 34/54] fix: repeat the writing of a partition that has failed

---
 zcollection/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index 6464581..fe49e29 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -261,6 +261,8 @@ def write_zarr_group(
                     chunks=zds.chunks,
                     dirname=dirname,
                     fs=fs,
+                    # A failed writing must be run again if it is repeated.
+                    pure=False,
                 )
                 execute_transaction(
                     client,
-- 
2.43.0


From 180823bdb6b17bff0f87a0ff9f2ef71cd27eef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:15 +0000
Subject: [PATCH 35/54] fix: repeat an update or a deletion that has failed

---
 zcollection/collection/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index d8ca108..f053372 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -473,7 +473,7 @@ class Collection(ReadOnlyCollection):
 
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(self.fs.rm, folders, recursive=True))
+            client.map(self.fs.rm, folders, recursive=True, pure=False))
 
         def invalidate_cache(path) -> None:
             """Invalidate the cache."""
@@ -592,7 +592,10 @@ class Collection(ReadOnlyCollection):
             or dask_utils.dask_workers(client, cores_only=True))
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(local_func, tuple(batches), key=func.__name__))
+            client.map(local_func,
+                       tuple(batches),
+                       key=func.__name__,
+                       pure=False))
         tuple(map(self.fs.invalidate_cache, selected_partitions))
 
     def drop_variable(
-- 
2.43.0


From 892a868933135636cd15f66cc5b8ff064d6c40d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:15 +0000
Subject: [PATCH 36/54] fix: keep the configuration of a collection if it
 cannot be rewritten

---
 zcollection/collection/__init__.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index f053372..9bf1d45 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -22,6 +22,7 @@ import dask.bag.core
 import dask.distributed
 import dask.utils
 import fsspec
+import fsspec.implementations.local
 import xarray
 
 from .. import (
@@ -249,8 +250,22 @@ class Collection(ReadOnlyCollection):
             'partitioning': self.partitioning.get_config(),
         }
 
-        with self.fs.open(config, mode='w') as stream:
-            json.dump(params, stream, indent=4)  # type: ignore[arg-type]
+        if not isinstance(self.fs,
+                          fsspec.implementations.local.LocalFileSystem):
+            with self.fs.open(config, mode='w') as stream:
+                json.dump(params, stream, indent=4)  # type: ignore[arg-type]
+            return
+
+        # The configuration in use is replaced once the new one is complete.
+        temp: str = f'{config}.tmp'
+        try:
+            with self.fs.open(temp, mode='w') as stream:
+                json.dump(params, stream, indent=4)  # type: ignore[arg-type]
+            os.replace(temp, config)
+        except Exception:
+            if self.fs.exists(temp):
+                self.fs.rm(temp)
+            raise
 
     def is_readonly(self) -> bool:
         """Return True if the collection is read-only."""
-- 
2.43.0


From c034fa133b08a8ffdb39534fcd46c830459e8609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:15 +0000
Subject: [PATCH 37/54] fix: keep the declared variables consistent with the
 configuration on failure

---
 zcollection/collection/__init__.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 9bf1d45..772e6b1 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -655,8 +655,16 @@ class Collection(ReadOnlyCollection):
             dask.distributed.Future] = dask.distributed.futures_of(
                 bag.map(storage.del_zarr_array, variable, self.fs).persist())
         storage.execute_transaction(client, self.synchronizer, awaitables)
-        del self.metadata.variables[variable]
-        self._write_config()
+        variables: dict[str, meta.Variable] = self.metadata.variables
+        self.metadata.variables = {
+            name: item
+            for name, item in variables.items() if name != variable
+        }
+        try:
+            self._write_config()
+        except Exception:
+            self.metadata.variables = variables
+            raise
 
     def add_variable(
         self,
@@ -692,7 +700,11 @@ class Collection(ReadOnlyCollection):
             raise ValueError(
                 'The new variable must use the partitioning axis.')
         self.metadata.add_variable(variable)
-        self._write_config()
+        try:
+            self._write_config()
+        except Exception:
+            del self.metadata.variables[variable.name]
+            raise
 
         # Remove the attribute from the variable. The attribute will be added
         # from the collection metadata.
-- 
2.43.0


From 56862aa02576ed876295920433a51f3e055bef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:15 +0000
Subject: [PATCH 38/54] fix: complete the deletion of a variable that has been
 interrupted

---
 zcollection/storage.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index fe49e29..ccf61bc 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -395,11 +395,13 @@ def del_zarr_array(
     path: str = join_path(dirname, name)
     if fs.exists(path):
         fs.rm(path, recursive=True)
-        zarr.consolidate_metadata(
-            fs.get_mapper(dirname),  # type: ignore[arg-type]
-        )
-        # Invalidate any cached directory information.
-        fs.invalidate_cache(dirname)
+    # The metadata may still describe the variable, if a previous deletion has
+    # been interrupted.
+    zarr.consolidate_metadata(
+        fs.get_mapper(dirname),  # type: ignore[arg-type]
+    )
+    # Invalidate any cached directory information.
+    fs.invalidate_cache(dirname)
 
 
 def add_zarr_array(
-- 
2.43.0


From b5c074735aba5120ef8b6d8f445c094b1b58975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:15 +0000
Subject: [PATCH 39/54] fix: repeat the addition or the deletion of a variable
 that has failed

---
 zcollection/collection/__init__.py | 31 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 772e6b1..3c791df 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -18,7 +18,6 @@ import os
 import types
 import warnings
 
-import dask.bag.core
 import dask.distributed
 import dask.utils
 import fsspec
@@ -650,11 +649,13 @@ class Collection(ReadOnlyCollection):
                     f'The variable {variable!r} is part of the immutable '
                     'dataset.')
         client: dask.distributed.Client = dask_utils.get_client()
-        bag: dask.bag.core.Bag = self._bag_from_partitions(lock=True)
-        awaitables: list[
-            dask.distributed.Future] = dask.distributed.futures_of(
-                bag.map(storage.del_zarr_array, variable, self.fs).persist())
-        storage.execute_transaction(client, self.synchronizer, awaitables)
+        storage.execute_transaction(
+            client, self.synchronizer,
+            client.map(storage.del_zarr_array,
+                       tuple(self.partitions(lock=True)),
+                       name=variable,
+                       fs=self.fs,
+                       pure=False))
         variables: dict[str, meta.Variable] = self.metadata.variables
         self.metadata.variables = {
             name: item
@@ -719,15 +720,15 @@ class Collection(ReadOnlyCollection):
             for dim in self.metadata.chunks
         }
         try:
-            bag: dask.bag.core.Bag = self._bag_from_partitions(lock=True)
-            futures: list[
-                dask.distributed.Future] = dask.distributed.futures_of(
-                    bag.map(storage.add_zarr_array,
-                            variable,
-                            template.name,
-                            self.fs,
-                            chunks=chunks).persist())
-            storage.execute_transaction(client, self.synchronizer, futures)
+            storage.execute_transaction(
+                client, self.synchronizer,
+                client.map(storage.add_zarr_array,
+                           tuple(self.partitions(lock=True)),
+                           variable=variable,
+                           template=template.name,
+                           fs=self.fs,
+                           chunks=chunks,
+                           pure=False))
         except Exception:
             self.drop_variable(variable.name)
             raise
-- 
2.43.0


From df942bfbf71464e5ee0141f957c60cfd501129d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:13 +0000
Subject: [PATCH 40/54] fix: hold the lock until every task of a failed
 transaction has ended

---
 zcollection/storage.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index ccf61bc..8e95114 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -69,17 +69,17 @@ def execute_transaction(
     if not futures:
         return None
     awaitables: Iterable[Any] = []
-    try:
-        with synchronizer:
+    with synchronizer:
+        try:
             awaitables = client.compute(futures,
                                         **kwargs)  # type: ignore[arg-type]
             return client.gather(awaitables)
-    except:  # noqa: E722
-        # Before throwing the exception, we wait until all future scheduled
-        # ones finished.
-        dask.distributed.wait(awaitables)
-        dask.distributed.wait(futures)
-        raise
+        except:  # noqa: E722
+            # Before throwing the exception and releasing the lock, we wait
+            # until all future scheduled ones finished.
+            dask.distributed.wait(awaitables)
+            dask.distributed.wait(futures)
+            raise
 
 
 def _to_zarr(array: dask.array.core.Array, mapper: fsspec.FSMap, path: str,
-- 
2.43.0


From 5df406e488066d764fb8664e50b5de94f7b7d2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:13 +0000
Subject: [PATCH 41/54] fix: remove the invalid partitions while the lock is
 held

---
 zcollection/collection/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 3c791df..acfec2a 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -850,7 +850,8 @@ class Collection(ReadOnlyCollection):
                 invalid_partitions.append(partition)
 
         if fix and invalid_partitions:
-            for item in invalid_partitions:
-                _LOGGER.info('Removing invalid partition: %s', item)
-                self.fs.rm(item, recursive=True)
+            with self.synchronizer:
+                for item in invalid_partitions:
+                    _LOGGER.info('Removing invalid partition: %s', item)
+                    self.fs.rm(item, recursive=True)
         return invalid_partitions
-- 
2.43.0


From 33c8480c594e299ccfcafba44d787d282a263ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:45 +0000
Subject: [PATCH 42/54] fix: remove an incomplete immutable dataset while the
 lock is held

---
 zcollection/collection/__init__.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index acfec2a..b051136 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -68,17 +68,18 @@ def _write_immutable_dataset(
         'The dataset to insert does not contain any variable '
         'that is not split.')
     _LOGGER.info('Creating the immutable dataset: %s', path)
-    try:
-        storage.write_zarr_group(immutable_dataset,
-                                 path,
-                                 fs,
-                                 synchronizer,
-                                 distributed=False)
-    except Exception:
-        # An incomplete dataset would never be completed.
-        if fs.exists(path):
-            fs.rm(path, recursive=True)
-        raise
+    with synchronizer:
+        try:
+            storage.write_zarr_group(immutable_dataset,
+                                     path,
+                                     fs,
+                                     sync.NoSync(),
+                                     distributed=False)
+        except Exception:
+            # An incomplete dataset would never be completed.
+            if fs.exists(path):
+                fs.rm(path, recursive=True)
+            raise
 
 
 def _infer_callable(
-- 
2.43.0


From e836d0ea5e3de21431ea03560a5dc0533d920b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:51 +0000
Subject: [PATCH 43/54] fix: start the tasks of a transaction once its lock is
 acquired

---
 zcollection/collection/__init__.py | 29 +++++-------
 zcollection/dask_utils.py          | 22 ++++++++-
 zcollection/view/__init__.py       | 71 +++++++++++++++---------------
 3 files changed, 68 insertions(+), 54 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index b051136..0976d26 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -488,7 +488,7 @@ class Collection(ReadOnlyCollection):
 
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(self.fs.rm, folders, recursive=True, pure=False))
+            dask_utils.delayed_map(self.fs.rm, folders, recursive=True))
 
         def invalidate_cache(path) -> None:
             """Invalidate the cache."""
@@ -607,10 +607,7 @@ class Collection(ReadOnlyCollection):
             or dask_utils.dask_workers(client, cores_only=True))
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(local_func,
-                       tuple(batches),
-                       key=func.__name__,
-                       pure=False))
+            dask_utils.delayed_map(local_func, batches))
         tuple(map(self.fs.invalidate_cache, selected_partitions))
 
     def drop_variable(
@@ -652,11 +649,10 @@ class Collection(ReadOnlyCollection):
         client: dask.distributed.Client = dask_utils.get_client()
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(storage.del_zarr_array,
-                       tuple(self.partitions(lock=True)),
-                       name=variable,
-                       fs=self.fs,
-                       pure=False))
+            dask_utils.delayed_map(storage.del_zarr_array,
+                                   self.partitions(lock=True),
+                                   name=variable,
+                                   fs=self.fs))
         variables: dict[str, meta.Variable] = self.metadata.variables
         self.metadata.variables = {
             name: item
@@ -723,13 +719,12 @@ class Collection(ReadOnlyCollection):
         try:
             storage.execute_transaction(
                 client, self.synchronizer,
-                client.map(storage.add_zarr_array,
-                           tuple(self.partitions(lock=True)),
-                           variable=variable,
-                           template=template.name,
-                           fs=self.fs,
-                           chunks=chunks,
-                           pure=False))
+                dask_utils.delayed_map(storage.add_zarr_array,
+                                       self.partitions(lock=True),
+                                       variable=variable,
+                                       template=template.name,
+                                       fs=self.fs,
+                                       chunks=chunks))
         except Exception:
             self.drop_variable(variable.name)
             raise
diff --git a/zcollection/dask_utils.py b/zcollection/dask_utils.py
index 40ed837..c7fcb0d 100644
--- a/zcollection/dask_utils.py
+++ b/zcollection/dask_utils.py
@@ -8,13 +8,14 @@ Dask utilities
 """
 from __future__ import annotations
 
-from typing import Any, Callable, Iterator, Sequence
+from typing import Any, Callable, Iterable, Iterator, Sequence
 import itertools
 import uuid
 
 from dask.delayed import Delayed as dask_Delayed
 import dask.distributed
 import dask.highlevelgraph
+import dask.utils
 
 
 def dask_workers(client: dask.distributed.Client,
@@ -105,3 +106,22 @@ def simple_delayed(name: str, func: Callable) -> dask_Delayed:
         }}, {name: set()}),
         None,
     )
+
+
+def delayed_map(func: Callable, sequence: Iterable[Any],
+                **kwargs) -> list[dask_Delayed]:
+    """Create the tasks applying a function on each item of a sequence.
+
+    Unlike the tasks created by ``Client.map``, they do not start until they
+    are computed, i.e. until the lock of the transaction is acquired.
+
+    Args:
+        func: function to be applied
+        sequence: items to process
+        **kwargs: keyword arguments to pass to the function
+
+    Returns:
+        The list of tasks.
+    """
+    name: str = dask.utils.funcname(func)
+    return [simple_delayed(name, func)(item, **kwargs) for item in sequence]
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index ccc142f..69f8a64 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -118,9 +118,9 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(
+            dask_utils.delayed_map(
                 _write_checksum,
-                tuple(args),
+                args,
                 base_dir=self.base_dir,
                 view_ref=self.view_ref,
                 fs=self.fs,
@@ -284,21 +284,21 @@ class View:
         try:
             storage.execute_transaction(
                 client, self.synchronizer,
-                client.map(_create_zarr_array,
-                           tuple(args),
-                           base_dir=self.base_dir,
-                           fs=self.fs,
-                           template=template.name,
-                           variable=variable))
+                dask_utils.delayed_map(_create_zarr_array,
+                                       args,
+                                       base_dir=self.base_dir,
+                                       fs=self.fs,
+                                       template=template.name,
+                                       variable=variable))
         except Exception:
             self.metadata.variables.pop(variable.name)
             storage.execute_transaction(
                 client, self.synchronizer,
-                client.map(_drop_zarr_zarr,
-                           tuple(self.partitions()),
-                           fs=self.fs,
-                           variable=variable.name,
-                           ignore_errors=True))
+                dask_utils.delayed_map(_drop_zarr_zarr,
+                                       self.partitions(),
+                                       fs=self.fs,
+                                       variable=variable.name,
+                                       ignore_errors=True))
             raise
 
         self._write_config()
@@ -330,10 +330,10 @@ class View:
 
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_drop_zarr_zarr,
-                       tuple(self.partitions()),
-                       fs=self.fs,
-                       variable=variable.name))
+            dask_utils.delayed_map(_drop_zarr_zarr,
+                                   self.partitions(),
+                                   fs=self.fs,
+                                   variable=variable.name))
 
     def load(
         self,
@@ -529,12 +529,11 @@ class View:
         batchs: Iterator[Sequence[Any]] = dask_utils.split_sequence(
             datasets_list, npartitions
             or dask_utils.dask_workers(client, cores_only=True))
-        awaitables: list[dask.distributed.Future] = client.map(
-            wrap_function,
-            tuple(batchs),
-            key=func.__name__,
-            base_dir=self.base_dir)
-        storage.execute_transaction(client, self.synchronizer, awaitables)
+        storage.execute_transaction(
+            client, self.synchronizer,
+            dask_utils.delayed_map(wrap_function,
+                                   batchs,
+                                   base_dir=self.base_dir))
 
     # pylint: disable=duplicate-code
     # false positive, no code duplication
@@ -742,13 +741,13 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         unsynchronized_partition = storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_sync,
-                       partitions,
-                       base_dir=self.base_dir,
-                       fs=self.fs,
-                       view_ref=self.view_ref,
-                       metadata=self.metadata,
-                       dry_run=True))
+            dask_utils.delayed_map(_sync,
+                                   partitions,
+                                   base_dir=self.base_dir,
+                                   fs=self.fs,
+                                   view_ref=self.view_ref,
+                                   metadata=self.metadata,
+                                   dry_run=True))
         return len(
             tuple(
                 filter(lambda item: item is not None,
@@ -794,12 +793,12 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         synchronized_partition: list[str | None] = storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_sync,
-                       partitions,
-                       base_dir=self.base_dir,
-                       fs=self.fs,
-                       view_ref=self.view_ref,
-                       metadata=self.metadata))
+            dask_utils.delayed_map(_sync,
+                                   partitions,
+                                   base_dir=self.base_dir,
+                                   fs=self.fs,
+                                   view_ref=self.view_ref,
+                                   metadata=self.metadata))
 
         partition_ids = tuple(
             dict(self.view_ref.partitioning.parse(
-- 
2.43.0


From 41359d1c2e2c82d0bb29d5735df5239353e8d87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:48 +0000
Subject: [PATCH 44/54] fix: mask the fill values of the variables that hold
 masked blocks

A variable whose dask array mixes masked blocks with plain ones (persisted,
then concatenated or filled) was returned with its fill values unmasked.
---
 zcollection/variable/delayed_array.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/zcollection/variable/delayed_array.py b/zcollection/variable/delayed_array.py
index c4745cf..56bfdc2 100644
--- a/zcollection/variable/delayed_array.py
+++ b/zcollection/variable/delayed_array.py
@@ -184,14 +184,10 @@ class DelayedArray(Variable):
 
             :meth:`Variable.array`
         """
-        # If the fill value is None, or if the dask array already holds a
-        # masked array, return the underlying array.
-        # pylint: disable=protected-access
-        # No other way to check if the dask array is a masked array.
-        if (self.fill_value is None
-                or isinstance(self.array._meta, numpy.ma.MaskedArray)):
+        if self.fill_value is None:
             return self.array
-        # pylint: enable=protected-access
+        # The underlying array may hold both masked and plain blocks (e.g. the
+        # concatenation of a persisted variable with another one).
         return dask.array.ma.masked_equal(self.array, self.fill_value)
 
     @property
-- 
2.43.0


From d91db79704e16ecda1fe350aa392e4babd1de33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:48 +0000
Subject: [PATCH 45/54] fix: compare a Python fill value with a NumPy scalar by
 value

The fill value of a masked array is a NumPy scalar: setting the values of a
variable to its own values was refused when its fill value is a Python number.
---
 zcollection/variable/abc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zcollection/variable/abc.py b/zcollection/variable/abc.py
index cfef892..5e57836 100644
--- a/zcollection/variable/abc.py
+++ b/zcollection/variable/abc.py
@@ -122,7 +122,13 @@ def not_equal(first: Any, second: Any) -> bool:
         # pylint: enable=comparison-with-itself
 
     #: pylint: disable=unidiomatic-typecheck
-    if type(first) is not type(second):
+    if isinstance(first, (bool, int, float)) and isinstance(
+            second, (numpy.bool_, numpy.number)):
+        # A Python number has no binary type: it's compared in the type of the
+        # NumPy scalar.
+        if isinstance(second, numpy.inexact):
+            first = type(second)(first)
+    elif type(first) is not type(second):
         return True
     #: pylint: enable=unidiomatic-typecheck
     if _is_not_a_number(first) and _is_not_a_number(second):
-- 
2.43.0


From 729a7982a15f819e58417185151596d20db5442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:48 +0000
Subject: [PATCH 46/54] fix: apply the NumPy functions to sequences of
 compressed arrays

The functions taking a sequence of compressed arrays recursed infinitely, and
the concatenation of the blocks lost the fill value of the result.
---
 zcollection/compressed_array.py | 36 +++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 109247b..583b7ed 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -26,6 +26,22 @@ from .type_hints import DType, NDArray, NDMaskedArray
 Array = Union[NDArray, NDMaskedArray]
 
 
+def _decompress(obj: Any) -> Any:
+    """Decompress the compressed arrays found in the arguments of a function.
+
+    Args:
+        obj: An argument, or a sequence of arguments.
+
+    Returns:
+        The argument(s), where compressed arrays are replaced by numpy arrays.
+    """
+    if isinstance(obj, CompressedArray):
+        return obj.__array__()
+    if isinstance(obj, (list, tuple)):
+        return type(obj)(map(_decompress, obj))
+    return obj
+
+
 class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
     """Hold a compressed array and provide a numpy.ndarray interface to it.
 
@@ -233,11 +249,9 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         Returns:
             The result of the numpy function.
         """
-        arrays: list[NDArray] = [
-            item.__array__() if isinstance(item, CompressedArray) else item
-            for item in args
-        ]
-        return func(*arrays, **kwargs)
+        return func(*_decompress(args),
+                    **{key: _decompress(item)
+                       for key, item in kwargs.items()})
 
     def __array_ufunc__(
         self,
@@ -307,9 +321,15 @@ def dask_array_from_compressed_array(
 @dask.array.dispatch.concatenate_lookup.register(CompressedArray)
 def _concatenate_compressed_array(arrays, **kwargs) -> NDArray:
     dtype: DType | None = kwargs.get('dtype', None)
-    arr: list[NDArray] = [item.__array__(dtype=dtype) for item in arrays]
-    if any(tuple(item.fill_value is not None for item in arrays)):
-        return numpy.ma.concatenate(arr, **kwargs)
+    arr: list[NDArray] = [
+        item.__array__(dtype=dtype) if isinstance(item, CompressedArray) else
+        numpy.asanyarray(item, dtype=dtype) for item in arrays
+    ]
+    if any(isinstance(item, numpy.ma.MaskedArray) for item in arr):
+        #: pylint: disable=protected-access
+        # We reuse the implementation of dask, which keeps the fill value.
+        return dask.array.backends._concatenate(arr, **kwargs)
+        #: pylint: enable=protected-access
     return numpy.concatenate(arr, **kwargs)
 
 
-- 
2.43.0


From a1929497b711dba2efcf8fff240e87ce9a38eecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:48 +0000
Subject: [PATCH 47/54] fix: keep the fill value of the rechunked compressed
 arrays

---
 zcollection/compressed_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 583b7ed..16c1775 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -191,12 +191,14 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         Returns:
             The rechunked array.
         """
-        return CompressedArray(
+        result = CompressedArray(
             zarr.array(self._array,
                        chunks=chunks,
                        compressor=self.compressor,
                        fill_value=self.fill_value,
                        filters=self.filters))
+        result._fill_value = self._fill_value
+        return result
 
     def __array__(self, dtype=None) -> Array:
         """Return a numpy.ndarray of the array.
-- 
2.43.0


From 3d184d1b50b3ac9e25b6229700f0c780302cd3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:48 +0000
Subject: [PATCH 48/54] fix: mask each compressed operand with its own fill
 value

---
 zcollection/compressed_array.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 16c1775..8d664a2 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -220,16 +220,13 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
     def _cast(self, obj: Any) -> Any:
         """Cast an object to a value compatible with numpy.ndarray."""
         if isinstance(obj, CompressedArray):
-            #: pylint: disable=protected-access
-            # obj is a CompressedArray, we can access its _array attribute.
-            return obj._array[...] if self._fill_value is None else \
-                numpy.ma.masked_equal(obj._array[...], self._fill_value)
-            #: pylint: enable=protected-access
+            # Each array has its own fill value.
+            return obj.__array__()
         if isinstance(obj, numpy.ndarray):
             return obj
         if isinstance(obj, dask.array.core.Array):
             return obj.compute()
-        if isinstance(obj, (float, int, bool)):
+        if isinstance(obj, (float, int, bool, numpy.generic)):
             return obj
         raise TypeError(f'Cannot cast {type(obj)} to array like object')
 
-- 
2.43.0


From 31afbe14f0010134b4ac1845a488ff3ec9103ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:48 +0000
Subject: [PATCH 49/54] fix: return NumPy arrays when the single block is
 compressed

---
 zcollection/dataset.py                | 6 +++++-
 zcollection/variable/delayed_array.py | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index f78f346..c49e539 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -487,7 +487,11 @@ class Dataset:
             arrays = tuple((key, value.data)
                            for key, value in self.variables.items()
                            if key in variables)
-            return dict(dask.base.compute(*arrays, **kwargs))
+            # The single block of an array may be compressed.
+            return {
+                key: numpy.asanyarray(array)
+                for key, array in dask.base.compute(*arrays, **kwargs)
+            }
         return dict(
             tuple((key, value.values) for key, value in self.variables.items()
                   if key in variables))
diff --git a/zcollection/variable/delayed_array.py b/zcollection/variable/delayed_array.py
index 56bfdc2..eb9e975 100644
--- a/zcollection/variable/delayed_array.py
+++ b/zcollection/variable/delayed_array.py
@@ -257,6 +257,8 @@ class DelayedArray(Variable):
             if 'cannot reshape' in msg or 'buffer too small' in msg:
                 raise ModifiedVariableError() from exc
             raise
+        # The single block of an array may be compressed.
+        values = numpy.asanyarray(values)
         return values if self.fill_value is None else numpy.ma.masked_equal(
             values, self.fill_value)
 
-- 
2.43.0


From b44de1665ade29cc5a2a4106925578060d483612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:10 +0000
Subject: [PATCH 50/54] fix: write the datasets in Zarr groups

Dataset.to_zarr always failed: wrong imports, positional argument given for a
keyword-only one, and parallel writing requested outside of a worker.
---
 zcollection/dataset.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index c49e539..de2c772 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -778,14 +778,26 @@ class Dataset:
         """
         if not self.delayed:
             raise ValueError('cannot write a non-delayed dataset to Zarr')
-        # pylint: disable=import-outside-toplevel, import-error
+        # pylint: disable=import-outside-toplevel
         # Avoid circular import
-        import storage
-        import sync
-
-        # pylint: enable=import-outside-toplevel, import-error
-        storage.write_zarr_group(self, path, fs or fsspec.filesystem('file'),
-                                 sync.NoSync(), parallel)
+        from . import dask_utils, storage, sync
+
+        # pylint: enable=import-outside-toplevel
+        fs = fs or fsspec.filesystem('file')
+        if not parallel:
+            storage.write_zarr_group(self,
+                                     path,
+                                     fs,
+                                     sync.NoSync(),
+                                     distributed=False)
+            return
+        # Only a worker can write the variables in parallel.
+        dask_utils.get_client().submit(storage.write_zarr_group,
+                                       self,
+                                       path,
+                                       fs,
+                                       sync.NoSync(),
+                                       pure=False).result()
 
     def __str__(self) -> str:
         return _dataset_repr(self)
-- 
2.43.0


From 40a27b831f1f3d8882683b3237a0eda954fe1c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:14 +0000
Subject: [PATCH 51/54] fix: open a view in the directory given, not where it
 was created

A view that had been moved or copied was read from (and written to, or created
again in) the directory in which it was first created.
---
 zcollection/view/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 69f8a64..07dda72 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -185,7 +185,8 @@ class View:
             data: dict[str, Any] = json.load(stream)
 
         view_ref: dict[str, Any] = data['view_ref']
-        return View(data['base_dir'],
+        # The view may have been moved since it was created.
+        return View(path,
                     ViewReference(
                         view_ref['path'],
                         fsspec.AbstractFileSystem.from_json(
-- 
2.43.0


From eac5d78378e55833039fbbc260e802c7f0c98224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:42 +0000
Subject: [PATCH 52/54] fix: keep the configuration of a view if it cannot be
 rewritten

---
 zcollection/view/__init__.py | 41 ++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 07dda72..f07eb2a 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -12,6 +12,7 @@ from typing import Any, ClassVar, Iterable, Iterator, Sequence
 import copy
 import json
 import logging
+import os
 import pathlib
 import warnings
 
@@ -20,6 +21,7 @@ import dask.bag.core
 import dask.distributed
 import dask.utils
 import fsspec
+import fsspec.implementations.local
 
 from .. import collection, dask_utils, dataset, fs_utils, meta, storage, sync
 from ..collection.callable_objects import MapCallable, PartitionCallable
@@ -140,19 +142,32 @@ class View:
         """Write the configuration file for the view."""
         config: str = self._config(self.base_dir)
         fs: dict[str, Any] = json.loads(self.view_ref.fs.to_json())
-        with self.fs.open(config, mode='w') as stream:
-            json.dump(
-                {
-                    'base_dir': self.base_dir,
-                    'filters': _serialize_filters(self.filters),
-                    'metadata': self.metadata.get_config(),
-                    'view_ref': {
-                        'path': self.view_ref.partition_properties.dir,
-                        'fs': fs,
-                    },
-                },
-                stream,  # type: ignore[arg-type]
-                indent=4)
+        params: dict[str, Any] = {
+            'base_dir': self.base_dir,
+            'filters': _serialize_filters(self.filters),
+            'metadata': self.metadata.get_config(),
+            'view_ref': {
+                'path': self.view_ref.partition_properties.dir,
+                'fs': fs,
+            },
+        }
+        if not isinstance(self.fs,
+                          fsspec.implementations.local.LocalFileSystem):
+            with self.fs.open(config, mode='w') as stream:
+                json.dump(params, stream, indent=4)  # type: ignore[arg-type]
+            self.fs.invalidate_cache(config)
+            return
+
+        # The configuration in use is replaced once the new one is complete.
+        temp: str = f'{config}.tmp'
+        try:
+            with self.fs.open(temp, mode='w') as stream:
+                json.dump(params, stream, indent=4)  # type: ignore[arg-type]
+            os.replace(temp, config)
+        except Exception:
+            if self.fs.exists(temp):
+                self.fs.rm(temp)
+            raise
         self.fs.invalidate_cache(config)
 
     @classmethod
-- 
2.43.0


From 99324ebd04a0217fe00d57c1d45fc92a7a595594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:42 +0000
Subject: [PATCH 53/54] fix: keep the variables of a view consistent with its
 configuration on failure

---
 zcollection/view/__init__.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index f07eb2a..5d4ea1a 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -285,7 +285,11 @@ class View:
 
         if len(existing_partitions) == 0:
             _LOGGER.info('No partitions found, skipping variable creation')
-            self._write_config()
+            try:
+                self._write_config()
+            except Exception:
+                self.metadata.variables.pop(variable.name)
+                raise
             return
 
         args = filter(lambda item: item[0] in existing_partitions,
@@ -306,6 +310,7 @@ class View:
                                        fs=self.fs,
                                        template=template.name,
                                        variable=variable))
+            self._write_config()
         except Exception:
             self.metadata.variables.pop(variable.name)
             storage.execute_transaction(
@@ -316,8 +321,6 @@ class View:
                                        variable=variable.name,
                                        ignore_errors=True))
             raise
-
-        self._write_config()
         # pylint: enable=duplicate-code
 
     def drop_variable(
@@ -342,7 +345,11 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
 
         variable: meta.Variable = self.metadata.variables.pop(varname)
-        self._write_config()
+        try:
+            self._write_config()
+        except Exception:
+            self.metadata.variables[varname] = variable
+            raise
 
         storage.execute_transaction(
             client, self.synchronizer,
-- 
2.43.0


From 246f2ad3d0e3e1fe636f98a15dc5f61baeb25899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:12 +0000
Subject: [PATCH 54/54] fix: synchronize the partitions of a view left
 incomplete

---
 zcollection/view/detail.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index c33780c..804247f 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -494,7 +494,7 @@ def _load_checksum_array(
     """
     checksum_path: str = join_path(partition, CHECKSUM_FILE)
     mapper: fsspec.FSMap = fs.get_mapper(checksum_path)
-    return zarr.open_array(mapper)
+    return zarr.open_array(mapper, mode='r')
 
 
 def _write_checksum(
@@ -627,7 +627,16 @@ def _sync(
     # The partition exists, so we check if it is synced.
     partition_ref: str = join_path(view_ref.partition_properties.dir,
                                    partition)
-    array: zarr.Array = _load_checksum_array(partition_view, fs)
+    try:
+        array: zarr.Array = _load_checksum_array(partition_view, fs)
+        array.attrs[CHECKSUM_ATTR]  # pylint: disable=pointless-statement
+    except (KeyError, ValueError):
+        # The partition has been left incomplete, so we create it again.
+        if not dry_run:
+            fs.rm(partition_view, recursive=True)
+            fs.invalidate_cache(partition_view)
+            _sync_partition(metadata, partition, base_dir, fs, view_ref)
+        return partition
     axis_ref: AxisReference = _calculate_axis_reference(
         partition_ref, view_ref)
     # If the checksums are different, the partition is not synced. So we
-- 
2.43.0

