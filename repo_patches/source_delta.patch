From 1ec7f518359e90ede5bfd39e5cf558ae73856f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:57 +0000
Subject: [PATCH 01/68] fix: restore boolean dict keys with their value and
 type

bool('False') is True, so a dict key False was loaded as True, and a
numpy.bool key, whose class is named 'bool' too, was loaded as builtin True.
---
 hickle/loaders/load_builtins.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 53b7442..9753528 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -30,13 +30,13 @@ from hickle.helpers import PyContainer,NotHicklable,no_compression,nobody_is_my_
 # by create_dictlike_dataset function
 dict_key_types_dict = {
     b'float': float,
-    b'bool': bool,
+    b'bool': lambda x : 'False' not in x, # bool('False') evaluates to True
     b'int': int,
     b'complex': complex,
     b'NoneType': lambda x : None,
     # str type keys required for h5py >= 3.x
     'float': float,
-    'bool': bool,
+    'bool': lambda x : 'False' not in x,
     'int': int,
     'complex': complex,
     'NoneType': lambda x : None
@@ -297,7 +297,7 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
                     else:
                         yield r'b"{}"'.format(h_key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                         continue
-            elif key_base_type in dict_key_types_dict:
+            elif key.__class__.__module__ == 'builtins' and key_base_type in dict_key_types_dict:
                 h_key = "{!r}".format(key)
                 if not _str_slashes.search(h_key):
                     yield h_key,py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
-- 
2.43.0


From f2372ca8802218c8a47cd138a2c8ad57e750be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:57 +0000
Subject: [PATCH 02/68] fix: keep dict keys containing NUL characters intact

HDF5 link names end at the first NUL, so {'a\0b': 1} was restored as {'': 1}.
---
 hickle/loaders/load_builtins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 9753528..d8260b0 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -245,8 +245,9 @@ def create_setlike_dataset(py_obj,h_group,name,**kwargs):
     )
     
 
-_byte_slashes = re.compile(b'[\\/]')
-_str_slashes = re.compile(r'[\\/]')
+# NUL terminates the name of an HDF5 link, anything following it would be lost
+_byte_slashes = re.compile(b'[\\/\0]')
+_str_slashes = re.compile(r'[\\/\0]')
 
 def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
 
-- 
2.43.0


From d55f0a68ee038990027c096aa952f44bd4cf7fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:57 +0000
Subject: [PATCH 03/68] fix: dump dict keys of str and bytes subclasses as key
 value pairs

Keys like numpy.str_('a') were dumped under their class name, which the
loader does not understand, leaving a file which cannot be loaded.
---
 hickle/loaders/load_builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index d8260b0..b70648c 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -285,11 +285,11 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
         for idx, (key, py_subobj) in enumerate(py_obj.items()):
             # Obtain the raw string representation of this key
             key_base_type = key.__class__.__name__.encode("utf8")
-            if isinstance(key,str):
+            if key.__class__ is str:
                 if not _str_slashes.search(key):
                     yield r'"{}"'.format(key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                     continue
-            elif isinstance(key,bytes):
+            elif key.__class__ is bytes:
                 if not _byte_slashes.search(key):
                     try:
                         h_key = key.decode("utf8")
-- 
2.43.0


From be45e8cfbd425d5fafb37ec724aa4df45a91242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:57 +0000
Subject: [PATCH 04/68] fix: decode stored strings when loading str subclasses

'str_type' holds the name of the subclass in this case, consequently the str()
of the array of bytes was loaded instead of the string.
---
 hickle/loaders/load_builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index b70648c..c5108a0 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -380,7 +380,7 @@ def load_list_dataset(h_node,base_type,py_obj_type):
 
     str_type = h_node.attrs.get('str_type', None)
     content = h_node[()]
-    if str_type in (b'str','str'):
+    if str_type in (b'str','str') or ( str_type is not None and issubclass(py_obj_type,str) ):
 
         # decode bytes representing python string before final conversion
         if h_node.dtype.itemsize > 1 and 'bytes' in h_node.dtype.name:
-- 
2.43.0


From 6f9284958f2360d9aca7b6f6a17b2fa40e12678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:37 +0000
Subject: [PATCH 05/68] fix: map list items to a common dtype only if none of
 them is altered

Lists of single bytes could not be dumped, [1, b'a'] was restored as [b'', b'a'],
integers above 64 bit raised OverflowError and [2**53+1, 0.5] lost digits.
---
 hickle/loaders/load_builtins.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index c5108a0..77415bf 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -124,21 +124,29 @@ def check_iterable_item_type(first_item,iter_obj):
     ):
         return None
 
+    # only boolean, integer, real and complex numbers can be mapped to a common dtype
     dtype = np.dtype(first_item.__class__)
-    if dtype.name == 'object' or 'str' in dtype.name or ( 'bytes' in dtype.name and len(first_item) > 1):
+    if dtype.kind not in 'biufc':
         return None
+    items = [first_item]
     for item in iter_obj:
         if np.ndim(item) != 0:
             return None
-        common_dtype = np.result_type(np.dtype(item.__class__),dtype)
-        if ( 
-            common_dtype.name == 'object' or
-            'str' in common_dtype.name or
-            ( 'bytes' in common_dtype.name and len(item) > 1 )
-        ):
+        item_dtype = np.dtype(item.__class__)
+        if item_dtype.kind not in 'biufc':
             return None
-        if dtype != common_dtype:
-            dtype = common_dtype
+        dtype = np.result_type(item_dtype,dtype)
+        items.append(item)
+
+    # ensure that no item is altered when casted to dtype, as is for example the case for
+    # integers exceeding the range of dtype or the number of digits floats can represent
+    try:
+        for item in items:
+            value = item.item() if isinstance(item,np.generic) else item
+            if dtype.type(item).item() != value and value == value:
+                return None
+    except OverflowError:
+        return None
     return dtype
 
 def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = None, **kwargs):
-- 
2.43.0


From 58bd6187476503d4be62efa632e0c534e21326a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:37 +0000
Subject: [PATCH 06/68] fix: do not apply filters to zero dimensional arrays

h5py raises TypeError when compression is requested for scalar datasets.
---
 hickle/loaders/load_numpy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 5ad0ff2..7a1e6e1 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -123,7 +123,8 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
             sub_items = ("data",py_obj,{},kwargs),
     else:
         h_node = h_group.create_dataset(
-            name, data=py_obj, **( no_compression(kwargs) if "bytes" in dtype.name else kwargs )
+            name, data=py_obj,
+            **( no_compression(kwargs) if "bytes" in dtype.name or py_obj.ndim < 1 else kwargs )
         )
         sub_items = ()
     h_node.attrs['np_dtype'] = dtype.str.encode('ascii')
-- 
2.43.0


From a7961c229877def556dac0a79ae31e6174148235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:03 +0000
Subject: [PATCH 07/68] fix: restore string and object arrays without any items

Empty string arrays could not be loaded, empty object arrays were loaded as
zero dimensional array containing h5py.Empty.
---
 hickle/loaders/load_numpy.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 7a1e6e1..2118037 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -98,7 +98,12 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
     dtype = py_obj.dtype
 
     # Check if py_obj contains strings
-    if "str" in dtype.name:
+    if py_obj.size < 1 and ( "str" in dtype.name or dtype.name == 'object' ):
+        # no items to be stored within a list, just keep shape of array
+        h_node = h_group.create_dataset(name,shape=None,dtype='int',**no_compression(kwargs))
+        h_node.attrs['np_shape'] = py_obj.shape
+        sub_items = ()
+    elif "str" in dtype.name:
         if py_obj.ndim < 1:
             # convert string to utf8 encoded bytearray
             string_data = bytearray(py_obj.item(),"utf8") if 'bytes' not in dtype.name else memoryview(py_obj.item())
@@ -226,6 +231,10 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
     resulting numpy.ndarray, numpy.ma.array
     """
     dtype = np.dtype(h_node.attrs['np_dtype'])
+    if h_node.shape is None:
+        # array of strings or objects without any items
+        data = np.empty(tuple(h_node.attrs.get('np_shape',(0,))),dtype=dtype)
+        return py_obj_type(data) if issubclass(py_obj_type,np.matrix) else data
     if "str" in dtype.name:
         string_data = h_node[()]
         if h_node.dtype.itemsize <= 1 or 'bytes' not in h_node.dtype.name:
-- 
2.43.0


From 0aac2557fb0a73b0f5fd0207b10778362da741ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:03 +0000
Subject: [PATCH 08/68] fix: load numpy.matrix of strings or objects stored as
 group

No PyContainer was registered for np_matrix, the matrix was loaded as RecoveredGroup.
---
 hickle/loaders/load_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 2118037..98326df 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -346,7 +346,7 @@ class_register = [
     # to keep things simple numpy.matrix will be handled by same functions as 
     # numpy.ndarray. As long as just required cause numpy.ma.core.MaskedArray 
     # uses it for data
-    [np.matrix, b"np_matrix", create_np_array_dataset, load_ndarray_dataset]
+    [np.matrix, b"np_matrix", create_np_array_dataset, load_ndarray_dataset,NDArrayLikeContainer]
 ]
 
 exclude_register = [
-- 
2.43.0


From 2c1b05801c68adee36966bf4c8396a37a4d6c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:17 +0000
Subject: [PATCH 09/68] fix: restore structured arrays, scalars and dtypes
 including their fields

dtype.str of structured dtypes reads '|V<size>' and thus does not describe them.
Structured arrays and masked arrays could not be loaded, dtype objects lost
their fields.
---
 hickle/loaders/load_numpy.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 98326df..d2a40a5 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -13,7 +13,7 @@ import types
 
 # hickle imports
 from hickle.loaders.load_builtins import create_listlike_dataset,ListLikeContainer
-from hickle.helpers import PyContainer,no_compression
+from hickle.helpers import PyContainer,NotHicklable,no_compression
 
 
 # %% FUNCTION DEFINITIONS
@@ -67,6 +67,8 @@ def create_np_dtype(py_obj, h_group, name, **kwargs):
     -------
     tuple containing h5py.Dataset and empty list of subitems
     """
+    if py_obj.names is not None or py_obj.subdtype is not None:
+        raise NotHicklable("fields and subarrays are not part of dtype string")
     d = h_group.create_dataset(name, data=bytearray(py_obj.str,"ascii"), **kwargs)
     return d,()
 
@@ -208,6 +210,9 @@ def load_np_scalar_dataset(h_node,base_type,py_obj_type):
     """
 
     dtype = np.dtype(h_node.attrs["np_dtype"])
+    if dtype.kind == 'V':
+        # 'np_dtype' does not name the fields, the content of the dataset does
+        return h_node[()]
     return dtype.type(h_node[()])
 
 
@@ -245,6 +250,9 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
         return np.asarray(string_data,dtype=dtype)
     if issubclass(py_obj_type,np.matrix):
         return py_obj_type(data=h_node[()],dtype=dtype)
+    if dtype.kind == 'V':
+        # 'np_dtype' does not name the fields of structured arrays, the dtype of the dataset does
+        dtype = h_node.dtype
     # TODO how to restore other ndarray derived object_types
     # simply using classname for casting does not work, in
     # case they use the same interface like numpy.ndarray
@@ -316,7 +324,9 @@ class NDMaskedArrayContainer(PyContainer):
         self._content[name] = item
 
     def convert(self):
-        dtype = self._h5_attrs['np_dtype']
+        dtype = np.dtype(self._h5_attrs['np_dtype'])
+        if dtype.kind == 'V':
+            dtype = self._content['data'].dtype
         data = np.ma.array(self._content['data'], mask=self._content['mask'], dtype=dtype)
         return data if data.__class__ is self.object_type or isinstance(self.object_type,types.LambdaType) else self.object_type(data)
 
-- 
2.43.0


From aad49794f0526a411bab6c2dfd0290be1836b7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:26 +0000
Subject: [PATCH 10/68] fix: keep shape of object arrays whose items are
 sequences

An object array containing lists of equal length was restored as array of
higher dimension, a zero dimensional one holding a list as list of its items.
---
 hickle/loaders/load_numpy.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index d2a40a5..fc21061 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -118,16 +118,19 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
             h_node,sub_items = create_listlike_dataset(py_obj.tolist(), h_group, name, **kwargs)
     elif dtype.name == 'object':
         # If so, convert py_obj to list
+        shape = py_obj.shape
         py_obj = py_obj.tolist()
 
-        # Check if py_obj is a list
-        if isinstance(py_obj, list):
+        # Check if py_obj has any dimensions
+        if shape:
             # If so, dump py_obj into the current group
             h_node,sub_items = create_listlike_dataset(py_obj, h_group, name, **kwargs)
         else:
             # If not, create a new group and dump py_obj into that
             h_node = h_group.create_group(name)
             sub_items = ("data",py_obj,{},kwargs),
+        # required to tell items which are sequences from dimensions of the array
+        h_node.attrs['np_shape'] = shape
     else:
         h_node = h_group.create_dataset(
             name, data=py_obj,
@@ -308,7 +311,19 @@ class NDArrayLikeContainer(ListLikeContainer):
             super(NDArrayLikeContainer,self).append(name,item,h5_attrs)
     
     def convert(self):
-        data = np.array(self._content,dtype = self._h5_attrs['np_dtype'])
+        shape = self._h5_attrs.get('np_shape',None)
+        if shape is None:
+            data = np.array(self._content,dtype = self._h5_attrs['np_dtype'])
+        else:
+            # assign each item individually to prevent that items which are
+            # sequences are taken for additional dimensions
+            data = np.empty(int(np.prod(shape)),dtype = self._h5_attrs['np_dtype'])
+            for position,index in enumerate(np.ndindex(*shape)):
+                item = self._content
+                for axis_index in index:
+                    item = item[axis_index]
+                data[position] = item
+            data = data.reshape(tuple(shape))
         return data if data.__class__ is self.object_type or isinstance(self.object_type,types.LambdaType) else self.object_type(data)
 
 class NDMaskedArrayContainer(PyContainer):
-- 
2.43.0


From 467e8854a1b460ae99222c4a7d934de046c05b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:26 +0000
Subject: [PATCH 11/68] fix: restore content of collections.Counter

Counter was called with the list of its items and thus counted them.
---
 hickle/loaders/load_builtins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 77415bf..c855e74 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -529,7 +529,8 @@ class DictLikeContainer(PyContainer):
         self._content[key_index] = item
 
     def convert(self):
-        return self.object_type(self._content)
+        # pass a mapping, as collections.Counter would count items of a list
+        return self.object_type(dict(self._content))
 
     
 
-- 
2.43.0


From da8a485f0e52dbab63758321163115c993c16636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:45 +0000
Subject: [PATCH 12/68] fix: load namedtuple objects

namedtuple classes take each item as an individual argument, files containing
them could be dumped but not be loaded any more.
---
 hickle/loaders/load_builtins.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index c855e74..f8fdbb7 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -384,7 +384,7 @@ def load_list_dataset(h_node,base_type,py_obj_type):
     if h_node.shape is None:
 
         # empty list tuple or set just return new instance of py_obj_type
-        return py_obj_type() if isinstance(py_obj_type,tuple) else py_obj_type(())
+        return getattr(py_obj_type,'_make',py_obj_type)(())
 
     str_type = h_node.attrs.get('str_type', None)
     content = h_node[()]
@@ -399,7 +399,10 @@ def load_list_dataset(h_node,base_type,py_obj_type):
 
             # decode bytes representing python string before final conversion
             content = bytes(content).decode("utf8")
-    return py_obj_type(content) if content.__class__ is not py_obj_type else content
+    if content.__class__ is py_obj_type:
+        return content
+    # in contrast to any other tuple namedtuple does not accept a sequence of items
+    return getattr(py_obj_type,'_make',py_obj_type)(content)
 
 def load_hickle_4_x_string(h_node,base_type,py_obj_type):
     """
@@ -465,7 +468,9 @@ class ListLikeContainer(PyContainer):
         self._content[index] = item
         
     def convert(self):
-        return self._content if self.object_type is self._content.__class__ else self.object_type(self._content)
+        if self.object_type is self._content.__class__:
+            return self._content
+        return getattr(self.object_type,'_make',self.object_type)(self._content)
 
 class SetLikeContainer(PyContainer):
     """
-- 
2.43.0


From 48f64075064f4295d54f6f1e27bf71869c00114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:45 +0000
Subject: [PATCH 13/68] fix: dump defaultdict objects as pickle string

The file structure has no place for default_factory, consequently files
containing a defaultdict could be dumped but not be loaded any more.
---
 hickle/loaders/load_builtins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index f8fdbb7..15dd065 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -14,6 +14,7 @@ hickle.
 import warnings
 import re
 import operator
+from collections import defaultdict
 
 # Package imports
 import numpy as np
@@ -282,6 +283,9 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
     list is always empty 
     """
 
+    if isinstance(py_obj,defaultdict):
+        raise NotHicklable("default_factory of defaultdict can not be restored from items only")
+
     h_dictgroup = h_group.create_group(name)
     key_value_pair_name = "data{:d}"
 
-- 
2.43.0


From 66c7471e76b822ee7d2c181d8935e6b457539bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:45 +0000
Subject: [PATCH 14/68] fix: restore state of garbage collector after closing
 the file

gc was enabled even if the caller had disabled it before, and stayed disabled
in case closing the file failed.
---
 hickle/hickle.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 9ade798..d22cac8 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -241,10 +241,15 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
         # disable python garbage collector while closing to prevent Unrecognized
         # typecode ValueError caused by h5py objects collected to earlay most 
         # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+        gc_enabled = gc.isenabled()
         gc.disable()
-        if close_flag:
-            h5f.close()
-        gc.enable()
+        try:
+            if close_flag:
+                h5f.close()
+        finally:
+            # do not turn garbage collector on if disabled by the caller
+            if gc_enabled:
+                gc.enable()
 
 ###########
 # LOADERS #
@@ -392,10 +397,15 @@ def load(file_obj, path='/', safe=True, filename = None):
         # disable python garbage collector while closing to prevent Unrecognized
         # typecode ValueError caused by h5py objects collected to earlay most 
         # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+        gc_enabled = gc.isenabled()
         gc.disable()
-        if close_flag:
-            h5f.close()
-        gc.enable()
+        try:
+            if close_flag:
+                h5f.close()
+        finally:
+            # do not turn garbage collector on if disabled by the caller
+            if gc_enabled:
+                gc.enable()
 
 
 
-- 
2.43.0


From 7c3b8def91905c4ae9fcd1b6acc3682d8ac0a42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:45 +0000
Subject: [PATCH 15/68] fix: accept documented modes 'w+' and 'x+' for file
 names too

---
 hickle/fileio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/fileio.py b/hickle/fileio.py
index 139b59a..beb3b2f 100644
--- a/hickle/fileio.py
+++ b/hickle/fileio.py
@@ -144,7 +144,9 @@ def file_opener(f, path, mode='r',filename = None):
 
     # Were we handed a file object or just a file name string?
     if isinstance(f, (str, Path)):
-        return h5.File(f, mode.replace('b','')),path,True
+        mode = mode.replace('b','')
+        # h5py always opens files for reading too and does not know about 'w+' and 'x+'
+        return h5.File(f, mode[0] if mode in {'w+','x+'} else mode),path,True
     if isinstance(f, h5.Group):
         if not f:
             raise ClosedFileError(
-- 
2.43.0


From 39e67cb7e850fbb80aef7fa2912dd6e2a79777d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:45 +0000
Subject: [PATCH 16/68] fix: do not modify hickle 4.x files when loading from
 writable handle

Loading from a h5py.File opened 'r+' added an empty hickle_types_table group
to the file of the user.
---
 hickle/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index daeea27..6bcf8e4 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -519,7 +519,7 @@ class ReferenceManager(BaseManager, dict):
         # structure.
         self._py_obj_type_table = h_root_group.get('hickle_types_table',None)
         if self._py_obj_type_table is None:
-            if h_root_group.file.mode == 'r+':
+            if h_root_group.file.mode == 'r+' and pickle_loads is not fix_lambda_obj_type:
                 self._py_obj_type_table = h_root_group.create_group("hickle_types_table",track_order = True)
             else:
                 h5_overlay = h5.File(
-- 
2.43.0


From 7aa17e15571006440e4df66f7b87f8e1b25798e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:01 +0000
Subject: [PATCH 17/68] fix: release ReferenceManager after loading hickle 4.x
 file

The manager was looked up by the id of the in memory overlay file, thus never
removed. Loading twice from the same h5py.File failed with LookupError and all
loaded objects were kept alive.
---
 hickle/lookup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 6bcf8e4..0a077b9 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -387,6 +387,7 @@ class ReferenceManager(BaseManager, dict):
         '_py_obj_type_table', # hickle_types_table h5py.Group storing type information
         '_py_obj_type_link', # dictionary linking py_obj_type and representation in hickle_types_table
         '_base_type_link', # dictionary linking base_type string and representation in hickle_types_table
+        '_h_root_group', # the h5py.Group the manager was created for
         '_overlay', # in memory hdf5 dummy file hosting dummy hickle_types_table for hickle 4.x files
         'pickle_loads' # reference to pickle.loads method
     )
@@ -507,6 +508,7 @@ class ReferenceManager(BaseManager, dict):
         super().__init__(*args,**kwargs)
         self._py_obj_type_link = dict()
         self._base_type_link = dict()
+        self._h_root_group = h_root_group
         self._overlay = None
         self.pickle_loads = pickle_loads
 
@@ -833,7 +835,9 @@ class ReferenceManager(BaseManager, dict):
         # remove this ReferenceManager object from the table of active ReferenceManager objects
         # and cleanly unlink from any h5py object instance and id references managed. Finalize
         # 'hickle_types_table' overlay if it was created by __init__ for hickle 4.x file
-        super().__exit__(exc_type, exc_value, exc_traceback, self._py_obj_type_table)
+        # NOTE: '_py_obj_type_table' belongs to a different file if overlay was created
+        super().__exit__(exc_type, exc_value, exc_traceback, self._h_root_group)
+        self._h_root_group = None
         self._py_obj_type_table = None
         self._py_obj_type_link = None
         self._base_type_link = None
-- 
2.43.0


From 52e788d35496607798771eb367756070a8b0108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:38 +0000
Subject: [PATCH 18/68] fix: dump scalar astropy Time objects with non numeric
 value

Scalar value of format isot, yday, datetime etc. is no numpy type and thus has
no dtype. Values without an HDF5 equivalent are pickled.
---
 hickle/loaders/load_astropy.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 6bd9876..7fdb980 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -9,7 +9,7 @@ import numpy as np
 import sys
 
 # hickle imports
-from hickle.helpers import no_compression,load_str_list_attr_ascii,load_str_attr_ascii
+from hickle.helpers import NotHicklable,no_compression,load_str_list_attr_ascii,load_str_attr_ascii
 
 
 # %% FUNCTION DEFINITIONS
@@ -130,17 +130,21 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
 
     # Need to catch string times, e.g. 1999-01-01T00:00:00.123
     # Must be encoded into bytes. 
-    if 'str' in py_obj.value.dtype.name:
+    # NOTE: value of scalar times is a plain python object for some formats
+    value = np.asarray(py_obj.value)
+    if value.dtype.kind not in 'fiuUS':
+        raise NotHicklable("no HDF5 equivalent for values of format '{}'".format(py_obj.format))
+    if 'str' in value.dtype.name:
         # 2024.03.31 - Convert both big and little endians to |S dtype
-        bytes_dtype_str = py_obj.value.dtype.str.replace('<U', '|S').replace('>U', '|S')
+        bytes_dtype_str = value.dtype.str.replace('<U', '|S').replace('>U', '|S')
         d = h_group.create_dataset(
             name,
-            data = np.array(py_obj.value.astype(bytes_dtype_str)),
-            **kwargs
+            data = np.array(value.astype(bytes_dtype_str)),
+            **( kwargs if value.ndim > 0 else no_compression(kwargs) )
         )
     else:
-        d = h_group.create_dataset(name, data=py_obj.value, dtype=py_obj.value.dtype)
-    d.attrs['np_dtype'] = py_obj.value.dtype.str.encode('ascii')
+        d = h_group.create_dataset(name, data=value, dtype=value.dtype)
+    d.attrs['np_dtype'] = value.dtype.str.encode('ascii')
 
     d.attrs['format'] = str(py_obj.format).encode('ascii')
     d.attrs['scale'] = str(py_obj.scale).encode('ascii')
-- 
2.43.0


From bb3bdde37e4903dc3669ade49a916e252cdf3d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:39 +0000
Subject: [PATCH 19/68] fix: do not drop frame, distance and velocity of
 SkyCoord

Any SkyCoord was restored as position in the ICRS frame. Pickle the ones which
can not be represented that way.
---
 hickle/loaders/load_astropy.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 7fdb980..84de9ce 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -1,6 +1,6 @@
 # %% IMPORTS
 # Package imports
-from astropy.coordinates import Angle, SkyCoord
+from astropy.coordinates import Angle, SkyCoord, UnitSphericalRepresentation
 from astropy.constants import Constant
 from astropy.table import Table
 from astropy.time import Time
@@ -94,6 +94,13 @@ def create_astropy_skycoord(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astorpy SkyCoord and empty subitems
     """
 
+    if (
+        py_obj.frame.name != 'icrs' or py_obj.data.differentials or
+        not isinstance(py_obj.data,UnitSphericalRepresentation)
+    ):
+        # only position on ICRS sphere is stored, loading would yield different coordinates
+        raise NotHicklable("frame, distance or velocity can not be restored")
+
     lon = py_obj.data.lon.value
     lat = py_obj.data.lat.value
     dd = np.stack((lon, lat), axis=-1)
-- 
2.43.0


From 8bbd32851868a9df855a156da59f183ddb35df72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:40 +0000
Subject: [PATCH 20/68] fix: do not drop mask and units of astropy Table
 columns

The table was restored with masked values exposed and without units. Pickle
tables which can not be represented by their bare data.
---
 hickle/loaders/load_astropy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 84de9ce..6547adf 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -215,6 +215,12 @@ def create_astropy_table(py_obj, h_group, name, **kwargs):
     -------
     tuple containing h5py.Dataset representing astropy table and empty subitems list
     """
+    if (
+        py_obj.has_masked_columns or py_obj.has_mixin_columns or
+        any(column.unit is not None for column in py_obj.itercols())
+    ):
+        # only the bare data is stored, loading would yield table without mask and units
+        raise NotHicklable("mask, units and mixin columns can not be restored")
     data = py_obj.as_array()
     d = h_group.create_dataset(name, data=data, dtype=data.dtype, **kwargs)
 
-- 
2.43.0


From e50958e87458bd507a409a2883baad2c37fa0bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:52 +0000
Subject: [PATCH 21/68] fix: raise error if items of list, tuple or array are
 missing in file

Missing items were silently replaced by () which in addition could not be told
from a valid empty tuple.
---
 hickle/helpers.py               | 3 ++-
 hickle/loaders/load_builtins.py | 7 +++++++
 hickle/loaders/load_numpy.py    | 2 ++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/hickle/helpers.py b/hickle/helpers.py
index b0f3e30..5a36e48 100644
--- a/hickle/helpers.py
+++ b/hickle/helpers.py
@@ -17,7 +17,8 @@ import functools as ft
 
 # %% EXCEPTION DEFINITIONS
 
-nobody_is_my_name = ()
+# unique marker for missing items, must not compare identical to any valid item, e.g. ()
+nobody_is_my_name = type('NobodyIsMyName',(),{})()
 
 class NotHicklable(Exception):
     """
diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 15dd065..40f9b5c 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -471,7 +471,14 @@ class ListLikeContainer(PyContainer):
             raise IndexError("Index {} already set".format(index))
         self._content[index] = item
         
+    def check_complete(self):
+        # items missing in file must not be replaced by anything else
+        for index,item in enumerate(self._content):
+            if item is nobody_is_my_name:
+                raise IndexError("Item {} missing".format(index))
+
     def convert(self):
+        self.check_complete()
         if self.object_type is self._content.__class__:
             return self._content
         return getattr(self.object_type,'_make',self.object_type)(self._content)
diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index fc21061..9d64a45 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -311,6 +311,8 @@ class NDArrayLikeContainer(ListLikeContainer):
             super(NDArrayLikeContainer,self).append(name,item,h5_attrs)
     
     def convert(self):
+        if isinstance(self._content,list):
+            self.check_complete()
         shape = self._h5_attrs.get('np_shape',None)
         if shape is None:
             data = np.array(self._content,dtype = self._h5_attrs['np_dtype'])
-- 
2.43.0


From 42f5b0ec204299a3c3ac6f2e4ace7d2ead809a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:30 +0000
Subject: [PATCH 22/68] fix: inspect class of list items only when looking for
 a common dtype

numpy.ndim was called on arbitrary items, thereby failing for ragged or
non ascii nested sequences and converting each nested sequence once per level
---
 hickle/loaders/load_builtins.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 40f9b5c..57154fa 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -13,7 +13,7 @@ hickle.
 # Built-in imports
 import warnings
 import re
-import operator
+import itertools
 from collections import defaultdict
 
 # Package imports
@@ -118,25 +118,21 @@ def check_iterable_item_type(first_item,iter_obj):
     the least common dtype or none if not all items can be casted
     """
 
-    if (
-        operator.length_hint(first_item) > 1 or
-        ( operator.length_hint(first_item) == 1 and not isinstance(first_item,(str,bytes)) ) or
-        np.ndim(first_item) != 0
-    ):
-        return None
-
-    # only boolean, integer, real and complex numbers can be mapped to a common dtype
-    dtype = np.dtype(first_item.__class__)
-    if dtype.kind not in 'biufc':
-        return None
-    items = [first_item]
-    for item in iter_obj:
-        if np.ndim(item) != 0:
+    # only boolean, integer, real and complex numbers can be mapped to a common dtype.
+    # Check class of item only, as its content in case of nested or ragged sequences may
+    # be anything
+    dtype = None
+    items = []
+    for item in itertools.chain((first_item,),iter_obj):
+        if item.__class__ in (bool,int,float,complex):
+            item_dtype = np.dtype(item.__class__)
+        elif isinstance(item,np.generic) and item.__class__ is item.dtype.type:
+            item_dtype = item.dtype
+        else:
             return None
-        item_dtype = np.dtype(item.__class__)
         if item_dtype.kind not in 'biufc':
             return None
-        dtype = np.result_type(item_dtype,dtype)
+        dtype = item_dtype if dtype is None else np.result_type(item_dtype,dtype)
         items.append(item)
 
     # ensure that no item is altered when casted to dtype, as is for example the case for
-- 
2.43.0


From 4bff96a753fef4050fd72ef322cbf030590d9583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:05 +0000
Subject: [PATCH 23/68] fix: do not store unknown options in file when refusing
 them

the stray OPTION_ attribute made anything dumped there later on unloadable
---
 hickle/lookup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 0a077b9..4d7ef11 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1106,6 +1106,10 @@ class LoaderManager(BaseManager):
             )
         else:
             def set_option_items():
+                # do not store any option in file unless all of them are known
+                for option_key in ( option_key for option_key,on in options.items() if on ):
+                    if option_key not in self.__class__.__py_types__:
+                        raise LookupError("Option '{}' invalid".format(option_key))
                 for option_key,on in options.items():
                     if not on:
                         continue
-- 
2.43.0


From c548532365d26d30c10d90e3114709ae50c81cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:56 +0000
Subject: [PATCH 24/68] fix: close file even if flushing it fails

---
 hickle/hickle.py | 52 ++++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index d22cac8..50934ab 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -236,20 +236,22 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
                 _dump(py_obj, h_root_group,'data', memo ,loader,**kwargs)
     finally:
         # Flush the the h5py.File  and close it if it was opened by hickle.
-        h5f.flush()
-
-        # disable python garbage collector while closing to prevent Unrecognized
-        # typecode ValueError caused by h5py objects collected to earlay most 
-        # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
-        gc_enabled = gc.isenabled()
-        gc.disable()
         try:
-            if close_flag:
-                h5f.close()
+            h5f.flush()
         finally:
-            # do not turn garbage collector on if disabled by the caller
-            if gc_enabled:
-                gc.enable()
+            # disable python garbage collector while closing to prevent Unrecognized
+            # typecode ValueError caused by h5py objects collected to earlay most 
+            # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+            gc_enabled = gc.isenabled()
+            gc.disable()
+            try:
+                # close file even if flushing it failed
+                if close_flag:
+                    h5f.close()
+            finally:
+                # do not turn garbage collector on if disabled by the caller
+                if gc_enabled:
+                    gc.enable()
 
 ###########
 # LOADERS #
@@ -392,20 +394,22 @@ def load(file_obj, path='/', safe=True, filename = None):
         raise ValueError("Provided argument 'file_obj' does not appear to be a valid hickle file! (%s)" % (error),error) from error
     finally:
         # Flush the h5py.File and close it lif it was opened by hickle.
-        h5f.flush()
-
-        # disable python garbage collector while closing to prevent Unrecognized
-        # typecode ValueError caused by h5py objects collected to earlay most 
-        # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
-        gc_enabled = gc.isenabled()
-        gc.disable()
         try:
-            if close_flag:
-                h5f.close()
+            h5f.flush()
         finally:
-            # do not turn garbage collector on if disabled by the caller
-            if gc_enabled:
-                gc.enable()
+            # disable python garbage collector while closing to prevent Unrecognized
+            # typecode ValueError caused by h5py objects collected to earlay most 
+            # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+            gc_enabled = gc.isenabled()
+            gc.disable()
+            try:
+                # close file even if flushing it failed
+                if close_flag:
+                    h5f.close()
+            finally:
+                # do not turn garbage collector on if disabled by the caller
+                if gc_enabled:
+                    gc.enable()
 
 
 
-- 
2.43.0


From 7c4ef77eec46c32e25153a5a8a3a2c60a02cb744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:36 +0000
Subject: [PATCH 25/68] fix: keep type of numpy scalars in lists, tuples and
 dict items

they were converted to the common dtype of all numbers next to them, including
the value in case of dict keys
---
 hickle/loaders/load_builtins.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 57154fa..8815a1a 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -132,6 +132,12 @@ def check_iterable_item_type(first_item,iter_obj):
             return None
         if item_dtype.kind not in 'biufc':
             return None
+        if (
+            items and item.__class__ is not items[0].__class__ and
+            ( isinstance(item,np.generic) or isinstance(items[0],np.generic) )
+        ):
+            # numpy scalars differing in type from other items would not keep it
+            return None
         dtype = item_dtype if dtype is None else np.result_type(item_dtype,dtype)
         items.append(item)
 
-- 
2.43.0


From ec3501ea2dc9e82001c7db8b4bb8c9f7cbaa60e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:18 +0000
Subject: [PATCH 26/68] fix: do not round scale of astropy units

units which can not be restored from their string representation are pickled now
---
 hickle/loaders/load_astropy.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 6547adf..62d79e7 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -4,7 +4,7 @@ from astropy.coordinates import Angle, SkyCoord, UnitSphericalRepresentation
 from astropy.constants import Constant
 from astropy.table import Table
 from astropy.time import Time
-from astropy.units import Quantity
+from astropy.units import Quantity, Unit
 import numpy as np
 import sys
 
@@ -13,6 +13,24 @@ from hickle.helpers import NotHicklable,no_compression,load_str_list_attr_ascii,
 
 
 # %% FUNCTION DEFINITIONS
+def ensure_unit_restorable(unit):
+    """
+    raises NotHicklable if unit can not be restored from its string representation
+    e.g. user defined units and units which include a scale of more than 6 digits
+
+    Parameters
+    ----------
+    unit:
+        the unit to be stored
+    """
+    try:
+        restorable = Unit(unit.to_string()) == unit
+    except ValueError:
+        restorable = False
+    if not restorable:
+        raise NotHicklable("unit '{}' can not be restored from its string representation".format(unit))
+
+
 def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     """
     dumps an astropy quantity
@@ -36,6 +54,7 @@ def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy quantity and empty subitems
     """
 
+    ensure_unit_restorable(py_obj.unit)
     d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
                                **no_compression(kwargs))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
-- 
2.43.0


From d982268d53cafd1c1b9eb78a422b3073ee7e3928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:18 +0000
Subject: [PATCH 27/68] fix: do not drop mask of masked astropy quantities and
 angles

---
 hickle/loaders/load_astropy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 62d79e7..945a86b 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -5,6 +5,7 @@ from astropy.constants import Constant
 from astropy.table import Table
 from astropy.time import Time
 from astropy.units import Quantity, Unit
+from astropy.utils.masked import Masked
 import numpy as np
 import sys
 
@@ -55,6 +56,8 @@ def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     """
 
     ensure_unit_restorable(py_obj.unit)
+    if isinstance(py_obj,Masked):
+        raise NotHicklable("mask of '{}' can not be restored".format(py_obj.__class__.__name__))
     d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
                                **no_compression(kwargs))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
@@ -84,6 +87,8 @@ def create_astropy_angle(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy angle and empty subitems
     """
 
+    if isinstance(py_obj,Masked):
+        raise NotHicklable("mask of '{}' can not be restored".format(py_obj.__class__.__name__))
     d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
                                **no_compression(kwargs))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
-- 
2.43.0


From 603358c8775c151f0220a83746e7b41176261a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:18 +0000
Subject: [PATCH 28/68] fix: do not change values of Longitude by wrapping at a
 different angle

---
 hickle/loaders/load_astropy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 945a86b..0ebe5f6 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -1,6 +1,6 @@
 # %% IMPORTS
 # Package imports
-from astropy.coordinates import Angle, SkyCoord, UnitSphericalRepresentation
+from astropy.coordinates import Angle, Longitude, SkyCoord, UnitSphericalRepresentation
 from astropy.constants import Constant
 from astropy.table import Table
 from astropy.time import Time
@@ -89,6 +89,9 @@ def create_astropy_angle(py_obj, h_group, name, **kwargs):
 
     if isinstance(py_obj,Masked):
         raise NotHicklable("mask of '{}' can not be restored".format(py_obj.__class__.__name__))
+    if isinstance(py_obj,Longitude) and py_obj.wrap_angle != Longitude(0,'deg').wrap_angle:
+        # values would be wrapped at the default angle on load
+        raise NotHicklable("wrap_angle can not be restored")
     d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
                                **no_compression(kwargs))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
-- 
2.43.0


From 3358f4afcb14123a6ef344d416ae50c69e80c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:18 +0000
Subject: [PATCH 29/68] fix: do not drop obstime, equinox and other attributes
 of SkyCoord

---
 hickle/loaders/load_astropy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 0ebe5f6..87d9e2c 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -1,6 +1,7 @@
 # %% IMPORTS
 # Package imports
 from astropy.coordinates import Angle, Longitude, SkyCoord, UnitSphericalRepresentation
+from astropy.coordinates import frame_transform_graph
 from astropy.constants import Constant
 from astropy.table import Table
 from astropy.time import Time
@@ -124,6 +125,7 @@ def create_astropy_skycoord(py_obj, h_group, name, **kwargs):
     if (
         py_obj.frame.name != 'icrs' or py_obj.data.differentials or
         not isinstance(py_obj.data,UnitSphericalRepresentation)
+        or any(getattr(py_obj,attr,None) is not None for attr in frame_transform_graph.frame_attributes)
     ):
         # only position on ICRS sphere is stored, loading would yield different coordinates
         raise NotHicklable("frame, distance or velocity can not be restored")
-- 
2.43.0


From fc8ce009c20bc90440f247dd645a8e3f7c235336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:18 +0000
Subject: [PATCH 30/68] fix: do not drop mask, location and precision of
 astropy Time

---
 hickle/loaders/load_astropy.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 87d9e2c..e36f7f4 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -167,6 +167,11 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
     # Need to catch string times, e.g. 1999-01-01T00:00:00.123
     # Must be encoded into bytes. 
     # NOTE: value of scalar times is a plain python object for some formats
+    if np.any(py_obj.mask):
+        # pickled masked Time objects can not be used after load either
+        raise TypeError("masked astropy Time objects not supported")
+    if py_obj.location is not None:
+        raise NotHicklable("location can not be restored")
     value = np.asarray(py_obj.value)
     if value.dtype.kind not in 'fiuUS':
         raise NotHicklable("no HDF5 equivalent for values of format '{}'".format(py_obj.format))
@@ -184,6 +189,7 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
 
     d.attrs['format'] = str(py_obj.format).encode('ascii')
     d.attrs['scale'] = str(py_obj.scale).encode('ascii')
+    d.attrs['precision'] = py_obj.precision
 
     return d,()
 
@@ -304,6 +310,9 @@ def load_astropy_time_dataset(h_node,base_type,py_obj_type):
     """
     fmt = load_str_attr_ascii(h_node.attrs,"format")
     scale = load_str_attr_ascii(h_node.attrs,"scale")
+    precision = h_node.attrs.get('precision',None)
+    if precision is not None:
+        precision = int(precision)
     dtype = h_node.attrs.get('np_dtype','')
     if dtype:
         dtype = np.dtype(dtype)
@@ -312,9 +321,9 @@ def load_astropy_time_dataset(h_node,base_type,py_obj_type):
             ustr = '<U' if sys.byteorder == 'little' else '>U'
             bytes_dtype_str = dtype.str.replace('|S', ustr)
             time_data = np.array(h_node[()]).astype(bytes_dtype_str)
-            return py_obj_type(time_data, format=fmt, scale=scale)
-        return py_obj_type(np.array(h_node[()],dtype=dtype), format=fmt, scale=scale)
-    return py_obj_type(np.array(h_node[()],dtype = h_node.dtype), format=fmt, scale=scale)
+            return py_obj_type(time_data, format=fmt, scale=scale, precision=precision)
+        return py_obj_type(np.array(h_node[()],dtype=dtype), format=fmt, scale=scale, precision=precision)
+    return py_obj_type(np.array(h_node[()],dtype = h_node.dtype), format=fmt, scale=scale, precision=precision)
 
 
 def load_astropy_angle_dataset(h_node,base_type,py_obj_type):
-- 
2.43.0


From 271b6333e9ea967d3eee2a8d3ddb15527b743e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:18 +0000
Subject: [PATCH 31/68] fix: do not mix up meta data of astropy Table with
 attributes used by hickle

---
 hickle/loaders/load_astropy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index e36f7f4..d4ce668 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -229,6 +229,9 @@ def create_astropy_constant(py_obj, h_group, name, **kwargs):
     return d,()
 
 
+# attributes of the dataset representing an astropy Table which are not part of its meta data
+table_reserved_attrs = {'type','base_type','colnames','item_index','key_idx','key_base_type'}
+
 def create_astropy_table(py_obj, h_group, name, **kwargs):
     """ Dump an astropy Table
 
@@ -252,7 +255,8 @@ def create_astropy_table(py_obj, h_group, name, **kwargs):
     """
     if (
         py_obj.has_masked_columns or py_obj.has_mixin_columns or
-        any(column.unit is not None for column in py_obj.itercols())
+        any(column.unit is not None for column in py_obj.itercols()) or
+        not table_reserved_attrs.isdisjoint(py_obj.meta)
     ):
         # only the bare data is stored, loading would yield table without mask and units
         raise NotHicklable("mask, units and mixin columns can not be restored")
@@ -437,7 +441,7 @@ def load_astropy_table(h_node,base_type,py_obj_type):
         meta = {
             metakey:metavalue 
             for metakey,metavalue in h_node.attrs.items()
-            if metakey not in {'type','base_type','colnames'}
+            if metakey not in table_reserved_attrs
         }
     )
     return t
-- 
2.43.0


From f13e5ce5547683953b0b8d3694f7cc265949a2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:22 +0000
Subject: [PATCH 32/68] fix: refuse to dump objects containing themselves

the resulting file could not be loaded
---
 hickle/hickle.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 50934ab..2e7def4 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -112,6 +112,11 @@ def _dump(py_obj, h_group, name, memo, loader,attrs={} , **kwargs):
         # Note: reference dataset share their base_type and py_obj_type with the
         #       referenced h5py.Group or h5py.Dataset. On load their h5py.ref_dtype type 
         #       dtype is used to distinguish them from datasets hosting pickled data.
+        if "{}/".format(h_group.name).startswith("{}/".format(py_obj_ref[0].name)):
+            # any attempt to load it would end in infinite recursion
+            raise ValueError(
+                "'{}' type object contains itself, cyclic references not supported".format(py_obj.__class__.__name__)
+            )
         h_link = h_group.create_dataset(name,data = py_obj_ref[0].ref,dtype = h5.ref_dtype)
         h_link.attrs.update(attrs)
         return
-- 
2.43.0


From 23bbd3ff92262402ded3d4b4e9065a1218ca8f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:33 +0000
Subject: [PATCH 33/68] fix: refuse file objects opened for appending instead
 of losing the dumped data

---
 hickle/fileio.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hickle/fileio.py b/hickle/fileio.py
index beb3b2f..4b3452c 100644
--- a/hickle/fileio.py
+++ b/hickle/fileio.py
@@ -203,6 +203,12 @@ def file_opener(f, path, mode='r',filename = None):
                     "a pathlib.Path,  a file or file like object, "
                     "an opened h5py.File or h5py.Group or h5py.Dataset there out of.".format(filename)
                 )
+            # a file opened for appending writes to its end only whatever position is sought to
+            file_mode = getattr(f,'mode',None)
+            if isinstance(file_mode,str) and 'a' in file_mode:
+                raise FileError(
+                    "file '{}' opened for appending. Please open it for updating ('r+b') instead.".format(filename)
+                )
         elif mode[0] != 'r':
             raise ValueError(
                 "invalid file mode must be one out of 'w','w+','x','x+','r','r+','a'. "
-- 
2.43.0


From 459c77622a6bdb4b924438ba4c2032d109f8a0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:46 +0000
Subject: [PATCH 34/68] fix: refuse excluding base types essential to hickle
 from loading

---
 hickle/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 4d7ef11..b452f44 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1042,7 +1042,7 @@ class LoaderManager(BaseManager):
             recognized as valid option
         """
     
-        if hkl_str_to_ignore[0] == hkl_str_to_ignore[-1] == b'!' or hkl_str_to_ignore in disallowed_to_ignore:
+        if hkl_str_to_ignore[:1] == hkl_str_to_ignore[-1:] == b'!' or hkl_str_to_ignore in disallowed_to_ignore:
             raise ValueError(
                 "excluding '{}' base_type managed by hickle core not possible".format(
                     hkl_str_to_ignore
-- 
2.43.0


From 2ea55baa960b024c8ac5a70a42f9ae8e66af03ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:25 +0000
Subject: [PATCH 35/68] fix: refuse loaders replacing handling of functions and
 methods by hickle

---
 hickle/lookup.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index b452f44..6fa7cc1 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -975,7 +975,13 @@ class LoaderManager(BaseManager):
                 myclass_type,
                 (types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.BuiltinMethodType)
             ) or
-            issubclass(myclass_type,(type,_DictItem))
+            issubclass(
+                myclass_type,
+                (
+                    type, _DictItem, types.FunctionType, types.BuiltinFunctionType,
+                    types.MethodType, types.BuiltinMethodType
+                )
+            )
         ):
             # object, all functions, methods, class objects and the special _DictItem class
             # type objects are to be handled by hickle core only. 
-- 
2.43.0


From fa12df61731cc59d04a736df00c386b429bcf750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:05 +0000
Subject: [PATCH 36/68] fix: refuse loaders replacing handling of dict items by
 hickle

---
 hickle/lookup.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 6fa7cc1..a1ac407 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1001,7 +1001,10 @@ class LoaderManager(BaseManager):
                     )
                 )
         if ( 
-            ( cls.__hkl_functions__[None].get(hkl_str) or cls.__hkl_container__[None].get(hkl_str) ) and
+            any(
+                cls.__hkl_functions__.get(table,{}).get(hkl_str) or cls.__hkl_container__.get(table,{}).get(hkl_str)
+                for table in (None,option)
+            ) and
             ( hkl_str[:1] == hkl_str[-1:] == b'!' or hkl_str in disallow_in_option )
         ):
             raise ValueError(
@@ -1410,7 +1413,7 @@ disallowed_to_ignore = {b'dict_item', b'pickle' }
 
 # list of below hkl_types which may not be redefined by optional loader
 # NOTE: types which are enclosed in !! pair are disallowed in any case
-disallow_in_option = {b'pickle'}
+disallow_in_option = {b'dict_item', b'pickle'}
 
 class NoContainer(PyContainer): # pragma: no cover
     """
-- 
2.43.0


From 99e88349a183b3814dfcf9baf32dcfae2a9119fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:34 +0000
Subject: [PATCH 37/68] fix: recover empty datasets of missing classes

hickle.load failed with TypeError if the class of an empty list or tuple
was not available any more.
---
 hickle/lookup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index a1ac407..d97abd9 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -218,6 +218,9 @@ class RecoveredDataset(np.ndarray,AttemptRecoverCustom):
     __slots__ = ('attrs',)
 
     def __new__(cls,input_array,dtype=None,attrs={}):
+        if isinstance(input_array,h5.Empty):
+            # dataset without any shape and content, eg. created for empty lists and tuples
+            input_array = np.empty(0,dtype=input_array.dtype)
         array_copy = np.array(input_array,dtype=dtype)
         obj = super().__new__(
             cls,
-- 
2.43.0


From 9c3acb16c40e53a00bdcf174037f3fed16d839a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:34 +0000
Subject: [PATCH 38/68] fix: recover data if module of class exists but can not
 be imported

Behave the same as for pickled objects and for files opened for writing.
---
 hickle/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index d97abd9..4d503e1 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -767,7 +767,7 @@ class ReferenceManager(BaseManager, dict):
                 # set is_container_flag to True if h_node is h5py.Group type object and false
                 # otherwise
                 return self.pickle_loads(type_ref), h_node.attrs.get('base_type', b'pickle'), isinstance(h_node, h5.Group)
-            except (ModuleNotFoundError,AttributeError):
+            except (ImportError,AttributeError):
                 # module missing or py_object_type not provided by module
                 return AttemptRecoverCustom,( h_node.attrs.get('base_type',b'pickle') if base_type_type == 2 else b'!recover!' ),isinstance(h_node,h5.Group)
             except (TypeError, pickle.UnpicklingError, EOFError):
@@ -813,7 +813,7 @@ class ReferenceManager(BaseManager, dict):
                     self._base_type_link[base_type_entry.id] = base_type
             try:
                 py_obj_type = self.pickle_loads(entry[()])
-            except (ModuleNotFoundError,AttributeError):
+            except (ImportError,AttributeError):
                 py_obj_type = AttemptRecoverCustom
                 entry_link = (py_obj_type,b'!recover!',base_type)
             else:
-- 
2.43.0


From 8114704a2a94fd0281cbc23e6565e4b2cc748ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:34 +0000
Subject: [PATCH 39/68] fix: warn if data of pickled object had to be recovered

The pickle string was returned without any DataRecoveredWarning and without
naming the base_type in contrast to any other recovered object.
---
 hickle/lookup.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 4d503e1..52dfde8 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1526,8 +1526,16 @@ def load_pickled_data(h_node, base_type, py_obj_type):
     """
     try:
         return pickle.loads(h_node[()])
-    except (ImportError,AttributeError):
-        return RecoveredDataset(h_node[()],dtype = h_node.dtype,attrs = dict(h_node.attrs))
+    except (ImportError,AttributeError) as error:
+        warnings.warn(
+            "unable to restore pickled object ({}). Data recovered ({})".format(
+                error, h_node.name.rsplit('/')[-1]
+            ),
+            DataRecoveredWarning
+        )
+        attrs = dict(h_node.attrs)
+        attrs['base_type'] = base_type
+        return RecoveredDataset(h_node[()],dtype = h_node.dtype,attrs = attrs)
 
         
 # no dump method is registered for object as this is the default for
-- 
2.43.0


From 9f3bed8b920e3b974776e85b39b31a853d1d6bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:34 +0000
Subject: [PATCH 40/68] fix: dump objects of classes defined by modules created
 at runtime

importlib.util.find_spec raises ValueError if __spec__ of module is None.
---
 hickle/lookup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 52dfde8..d6713d7 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1282,7 +1282,11 @@ class LoaderManager(BaseManager):
                     if not package_file:
                         package_spec = getattr(sys.modules.get(package_list[0],None),'__spec__',None)
                         if package_spec is None:
-                            package_spec = find_spec(package_list[0])
+                            try:
+                                package_spec = find_spec(package_list[0])
+                            except ValueError:
+                                # module created at runtime without any spec
+                                continue
                         if not getattr(package_spec,'has_location',False):
                             # can't resolve package or base module hosting mro_item
                             continue
-- 
2.43.0


From 0445ce6c77ffdabb0507479c05f82280dbd357fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:14 +0000
Subject: [PATCH 41/68] fix: keep references to recovered data shared

The memoise flag of the base class was used if the loader of a class derived
from eg. int was missing and thus its data recovered once per reference.
---
 hickle/hickle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 2e7def4..e830261 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -59,7 +59,7 @@ from .fileio import ClosedFileError, FileError, file_opener
 from .lookup import (
     #hkl_types_dict, hkl_container_dict, load_loader, load_legacy_loader ,
     create_pickled_dataset, load_nothing, fix_lambda_obj_type,ReferenceManager,
-    LoaderManager, RecoverGroupContainer, recover_custom_dataset
+    LoaderManager, RecoverGroupContainer, recover_custom_dataset, AttemptRecoverCustom
 )
 
 
@@ -481,6 +481,7 @@ def _load(py_container, h_name, h_node,memo,loader): #load_loader = load_loader)
         py_container.append(h_name,sub_data,h_node.attrs)
 
     # store loaded object for properly restoring additional references to it
-    if memoise:
+    # NOTE: the loader missing for recovered data may have demanded memoisation
+    if memoise or isinstance(sub_data,AttemptRecoverCustom):
         memo[h_node.id] = sub_data
 
-- 
2.43.0


From a5bf54f793c9d620cd46882bc24e6a253ec5c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:09 +0000
Subject: [PATCH 42/68] fix: raise error if item of zero dimensional object
 array is missing

---
 hickle/loaders/load_numpy.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 9d64a45..bbff023 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -13,7 +13,7 @@ import types
 
 # hickle imports
 from hickle.loaders.load_builtins import create_listlike_dataset,ListLikeContainer
-from hickle.helpers import PyContainer,NotHicklable,no_compression
+from hickle.helpers import PyContainer,NotHicklable,no_compression,nobody_is_my_name
 
 
 # %% FUNCTION DEFINITIONS
@@ -299,6 +299,13 @@ class NDArrayLikeContainer(ListLikeContainer):
 
     __slots__ = ()
     
+    def __init__(self,h5_attrs,base_type,object_type):
+        super(NDArrayLikeContainer,self).__init__(h5_attrs,base_type,object_type)
+        shape = h5_attrs.get('np_shape',None)
+        if shape is not None and len(shape) < 1:
+            # zero dimensional array, its item must not be replaced by anything else
+            self._content = nobody_is_my_name
+
     def append(self,name,item,h5_attrs):
 
         # if group contains only one item which either has been
@@ -311,6 +318,8 @@ class NDArrayLikeContainer(ListLikeContainer):
             super(NDArrayLikeContainer,self).append(name,item,h5_attrs)
     
     def convert(self):
+        if self._content is nobody_is_my_name:
+            raise IndexError("Item missing")
         if isinstance(self._content,list):
             self.check_complete()
         shape = self._h5_attrs.get('np_shape',None)
-- 
2.43.0


From c7b6bc183c1b4c5b6fc3d866a8261529543d5699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:24 +0000
Subject: [PATCH 43/68] fix: raise error if shape of sparse matrix is missing

---
 hickle/loaders/load_scipy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/loaders/load_scipy.py b/hickle/loaders/load_scipy.py
index 607c324..51c73c0 100644
--- a/hickle/loaders/load_scipy.py
+++ b/hickle/loaders/load_scipy.py
@@ -111,6 +111,9 @@ class SparseMatrixContainer(PyContainer):
         self._content[index] = item
 
     def convert(self):
+        for name,index in self._index_name_map.items():
+            if self._content[index] is None:
+                raise KeyError("'{}' of sparse matrix missing".format(name))
         return self.object_type(tuple(self._content[:3]),dtype=self._content[0].dtype,shape=self._content[3])
 
 # %% REGISTERS
-- 
2.43.0


From b36207648c84d0bc2de03ff4be586cabf099b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:57 +0000
Subject: [PATCH 44/68] fix: strings of hickle 3.x files loaded as the repr of
 bytes

---
 hickle/legacy_v3/loaders/load_python3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/loaders/load_python3.py b/hickle/legacy_v3/loaders/load_python3.py
index 9ec82bc..1f15df6 100644
--- a/hickle/legacy_v3/loaders/load_python3.py
+++ b/hickle/legacy_v3/loaders/load_python3.py
@@ -142,7 +142,8 @@ def load_bytes_dataset(h_node):
 
 def load_string_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
-    return str(data[0])
+    # h5py >= 3.x returns strings as bytes
+    return data[0].decode('utf8') if isinstance(data[0],bytes) else str(data[0])
 
 def load_unicode_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
-- 
2.43.0


From 5c87cf1149384d0e8938b20b07dfc6635513b945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:57 +0000
Subject: [PATCH 45/68] fix: lists of non utf8 bytes in hickle 3.x files could
 not be loaded

---
 hickle/legacy_v3/loaders/load_python3.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hickle/legacy_v3/loaders/load_python3.py b/hickle/legacy_v3/loaders/load_python3.py
index 1f15df6..fa28c96 100644
--- a/hickle/legacy_v3/loaders/load_python3.py
+++ b/hickle/legacy_v3/loaders/load_python3.py
@@ -121,8 +121,7 @@ def load_list_dataset(h_node):
     py3_str_type = get_py3_string_type(h_node)
 
     if py3_str_type == b"<class 'bytes'>":
-        # Yuck. Convert numpy._bytes -> str -> bytes
-        return [bytes(str(item, 'utf8'), 'utf8') for item in data]
+        return [bytes(item) for item in data]
     if py3_str_type == b"<class 'str'>":
         return [str(item, 'utf8') for item in data]
     else:
-- 
2.43.0


From 1f0e1c08a2cd8f786661b4b0fd5bddf9bead5619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:57 +0000
Subject: [PATCH 46/68] fix: bool, bytes and None keys of dicts in hickle 3.x
 files changed value or type

---
 hickle/legacy_v3/lookup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hickle/legacy_v3/lookup.py b/hickle/legacy_v3/lookup.py
index 6ed0d6c..e594d0c 100644
--- a/hickle/legacy_v3/lookup.py
+++ b/hickle/legacy_v3/lookup.py
@@ -100,10 +100,12 @@ container_key_types_dict = {
     b"<type 'tuple'>": literal_eval,
     b"<class 'str'>": literal_eval,
     b"<class 'float'>": float,
-    b"<class 'bool'>": bool,
+    b"<class 'bool'>": literal_eval, # bool('False') evaluates to True
     b"<class 'int'>": int,
     b"<class 'complex'>": complex,
-    b"<class 'tuple'>": literal_eval
+    b"<class 'tuple'>": literal_eval,
+    b"<class 'bytes'>": literal_eval,
+    b"<class 'NoneType'>": literal_eval
     }
 
 if six.PY2:
-- 
2.43.0


From 0ba6a992382eef28bee978474f0d2359d0853ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:57 +0000
Subject: [PATCH 47/68] fix: dicts with non ascii keys in hickle 3.x files
 could not be loaded

---
 hickle/legacy_v3/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/helpers.py b/hickle/legacy_v3/helpers.py
index b7e0034..dac7987 100644
--- a/hickle/legacy_v3/helpers.py
+++ b/hickle/legacy_v3/helpers.py
@@ -32,7 +32,7 @@ def sort_keys(key_list):
         key_list2 = []
         for key in key_list:
             if isinstance(key, str):
-                key = bytes(key, 'ascii')
+                key = bytes(key, 'utf8')
             key_list2.append(key)
         key_list = key_list2
 
-- 
2.43.0


From bf598df14a9f737e15cb60bf5d0ff1abc6505562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:57 +0000
Subject: [PATCH 48/68] fix: masked arrays in lists of hickle 3.x files were
 followed by an additional None item

---
 hickle/legacy_v3/hickle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hickle/legacy_v3/hickle.py b/hickle/legacy_v3/hickle.py
index 1653682..9b732ba 100644
--- a/hickle/legacy_v3/hickle.py
+++ b/hickle/legacy_v3/hickle.py
@@ -605,8 +605,10 @@ def _load(py_container, h_group):
         py_container.append(sub_data)
 
     else:
-        # must be a dataset
-        subdata = load_dataset(h_group)
-        py_container.append(subdata)
+        # must be a dataset. The mask of a masked array is loaded along with
+        # its data and thus is not an item on its own
+        if get_type(h_group) != b'ndarray_masked_mask':
+            subdata = load_dataset(h_group)
+            py_container.append(subdata)
 
     return py_container
-- 
2.43.0


From a9329c6caae0486a37b851d7437935a664a512c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:57 +0000
Subject: [PATCH 49/68] fix: lists of empty, non ascii strings or bytes in
 hickle 4.0 files changed or could not be loaded

---
 hickle/loaders/load_builtins.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 8815a1a..1018f6f 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -394,17 +394,16 @@ def load_list_dataset(h_node,base_type,py_obj_type):
 
     str_type = h_node.attrs.get('str_type', None)
     content = h_node[()]
-    if str_type in (b'str','str') or ( str_type is not None and issubclass(py_obj_type,str) ):
+    if str_type is not None and not issubclass(py_obj_type,(str,bytes)):
 
-        # decode bytes representing python string before final conversion
-        if h_node.dtype.itemsize > 1 and 'bytes' in h_node.dtype.name:
-
-            # string dataset 4.0.x style convert it back to python string
-            content = np.asarray(content, dtype=str).tolist()
-        else:
+        # list of strings or bytes 4.0.x style convert items back to python strings
+        content = content.tolist()
+        if str_type in (b'str','str'):
+            content = [ item.decode("utf8") for item in content ]
+    elif str_type in (b'str','str') or ( str_type is not None and issubclass(py_obj_type,str) ):
 
-            # decode bytes representing python string before final conversion
-            content = bytes(content).decode("utf8")
+        # decode bytes representing python string before final conversion
+        content = bytes(content).decode("utf8")
     if content.__class__ is py_obj_type:
         return content
     # in contrast to any other tuple namedtuple does not accept a sequence of items
-- 
2.43.0


From 4e70a36912654e740175b3700a547d87d8dbed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:57 +0000
Subject: [PATCH 50/68] fix: bytes keys of dicts in hickle 4.0 files loaded as
 str

---
 hickle/loaders/load_builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 1018f6f..58eceb9 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -11,6 +11,7 @@ hickle.
 
 # %% IMPORTS
 # Built-in imports
+import ast
 import warnings
 import re
 import itertools
@@ -519,7 +520,7 @@ class DictLikeContainer(PyContainer):
             )
         elif key_base_type in (b'bytes','bytes'):
             item = (
-                name[2:-1].encode("utf8") if name[:2] == 'b"' else self._swap_key_slashes.sub(r'/',name)[1:-1],
+                name[2:-1].encode("utf8") if name[:2] == 'b"' else ast.literal_eval(self._swap_key_slashes.sub(r'/',name)),
                 item
             )
         elif not key_base_type in (b'key_value','key_value'):
@@ -527,7 +528,6 @@ class DictLikeContainer(PyContainer):
             if load_key is None:
                 if key_base_type not in {b'tuple','tuple'}:
                     raise ValueError("key type '{}' not understood".format(key_base_type.decode("utf8")))
-                import ast
                 load_key = ast.literal_eval
             item = (
                 load_key(self._swap_key_slashes.sub(r'/',name)),
-- 
2.43.0


From a2064b588b8369ca38246b8659247ac7da6c344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:57 +0000
Subject: [PATCH 51/68] fix: arrays of single characters in hickle 4.0 files
 loaded as zero dimensional array

---
 hickle/loaders/load_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index bbff023..ee9f213 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -245,7 +245,7 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
         return py_obj_type(data) if issubclass(py_obj_type,np.matrix) else data
     if "str" in dtype.name:
         string_data = h_node[()]
-        if h_node.dtype.itemsize <= 1 or 'bytes' not in h_node.dtype.name:
+        if 'base_type' not in h_node.attrs and ( h_node.dtype.itemsize <= 1 or 'bytes' not in h_node.dtype.name ):
             # in hickle 4.0.X numpy.ndarrays containing multiple strings are 
             # not converted to list of string but saved as ar consequently
             # itemsize of dtype is > 1
-- 
2.43.0


From 72a9747607891439113a0ac87c4717fb3b3bc522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:34 +0000
Subject: [PATCH 52/68] fix: scalar quantities of hickle 3.x files could not be
 loaded

---
 hickle/legacy_v3/loaders/load_astropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/loaders/load_astropy.py b/hickle/legacy_v3/loaders/load_astropy.py
index 17ca3d4..fa6d640 100644
--- a/hickle/legacy_v3/loaders/load_astropy.py
+++ b/hickle/legacy_v3/loaders/load_astropy.py
@@ -147,7 +147,7 @@ def create_astropy_table(py_obj, h_group, call_id=0, **kwargs):
 def load_astropy_quantity_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
     unit = h_node.attrs["unit"][0]
-    q = Quantity(data, unit, copy=False)
+    q = Quantity(data, unit)
     return q
 
 def load_astropy_time_dataset(h_node):
-- 
2.43.0


From 0bfa7ec70c5a4af20724f57aecfa21e3f0a37595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:34 +0000
Subject: [PATCH 53/68] fix: column names of tables dumped using h5py 2.x
 loaded as the repr of bytes

---
 hickle/loaders/load_astropy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index d4ce668..5bddd75 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -433,7 +433,11 @@ def load_astropy_table(h_node,base_type,py_obj_type):
     resulting py_obj_type
     """
 
-    colnames = load_str_list_attr_ascii(h_node.attrs,"colnames")
+    # byte strings if file was created using h5py < 3.x
+    colnames = [
+        name.decode('ascii') if isinstance(name,bytes) else name
+        for name in load_str_list_attr_ascii(h_node.attrs,"colnames")
+    ]
 
     t = py_obj_type(
         h_node[()],
-- 
2.43.0


From e10c25e6687b822a184eafff3f95022074bdb5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:58 +0000
Subject: [PATCH 54/68] fix: object arrays in hickle 4.0 files loaded as dict
 unless numpy loaders happened to be loaded already

---
 hickle/hickle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index e830261..8299ada 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -382,6 +382,8 @@ def load(file_obj, path='/', safe=True, filename = None):
                 # just in case issues arise. Especially as corresponding lambdas in
                 # load_numpy are not needed anymore and thus have been removed.
                 with LoaderManager.create_manager(h_root_group,True) as loader:
+                    # the type stored for object arrays does not tell that loaders for numpy are needed
+                    loader.load_loader(np.ndarray)
                     with ReferenceManager.create_manager(h_root_group,fix_lambda_obj_type) as memo:
                         _load(py_container, 'data',h_root_group['data'],memo,loader) #load_loader = load_legacy_loader)
                 return py_container.convert()
-- 
2.43.0


From f26c08b9df56a75d74268a62e2502ae71ca5d05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:56 +0000
Subject: [PATCH 55/68] fix: garbage collector stayed disabled if two threads
 finished dump or load at the same time

---
 hickle/hickle.py | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 8299ada..0e9895c 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -49,6 +49,8 @@ import numpy as np
 #may kick in while trying to close file. Causing ValueError in close
 #to prevent check if collectoin is necessary after flushing file
 import gc
+import threading
+from contextlib import contextmanager
 
 # hickle imports
 from hickle import __version__
@@ -69,6 +71,32 @@ __all__ = ['dump', 'load']
 
 # %% FUNCTION DEFINITIONS
 
+# number of threads which require the garbage collector to be turned off at the
+# moment and its state before the first of them turned it off
+_gc_lock = threading.RLock()
+_gc_off_count = 0
+_gc_was_enabled = False
+
+@contextmanager
+def _gc_off():
+    """
+    turns the garbage collector off as long as any thread is inside of the context and
+    restores its state when the last one leaves. Does not turn it on if disabled by the caller
+    """
+    global _gc_off_count,_gc_was_enabled
+    with _gc_lock:
+        if not _gc_off_count:
+            _gc_was_enabled = gc.isenabled()
+        _gc_off_count += 1
+        gc.disable()
+    try:
+        yield
+    finally:
+        with _gc_lock:
+            _gc_off_count -= 1
+            if not _gc_off_count and _gc_was_enabled:
+                gc.enable()
+
 
 ###########
 # DUMPERS #
@@ -247,16 +275,10 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
             # disable python garbage collector while closing to prevent Unrecognized
             # typecode ValueError caused by h5py objects collected to earlay most 
             # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
-            gc_enabled = gc.isenabled()
-            gc.disable()
-            try:
+            with _gc_off():
                 # close file even if flushing it failed
                 if close_flag:
                     h5f.close()
-            finally:
-                # do not turn garbage collector on if disabled by the caller
-                if gc_enabled:
-                    gc.enable()
 
 ###########
 # LOADERS #
@@ -407,16 +429,10 @@ def load(file_obj, path='/', safe=True, filename = None):
             # disable python garbage collector while closing to prevent Unrecognized
             # typecode ValueError caused by h5py objects collected to earlay most 
             # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
-            gc_enabled = gc.isenabled()
-            gc.disable()
-            try:
+            with _gc_off():
                 # close file even if flushing it failed
                 if close_flag:
                     h5f.close()
-            finally:
-                # do not turn garbage collector on if disabled by the caller
-                if gc_enabled:
-                    gc.enable()
 
 
 
-- 
2.43.0


From 4eed931da932e2fd01284210fb6207338442b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:20 +0000
Subject: [PATCH 56/68] fix: masked arrays and other subclasses dumped or
 loaded as their base class when several threads used hickle for the first
 time

---
 hickle/lookup.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index d6713d7..e1716ea 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -96,6 +96,8 @@ import warnings
 import types
 import re
 import weakref
+import threading
+import functools
 import os.path
 from importlib.util import find_spec, module_from_spec,spec_from_file_location,spec_from_loader
 from importlib import invalidate_caches
@@ -857,6 +859,19 @@ _managed_by_hickle = {'hickle', ''}
 
 _custom_loader_enabled_builtins = {'__main__':('','')}
 
+# loaders are shared by all files and thus by all threads
+_loader_lock = threading.RLock()
+
+def _serialized(method):
+    """
+    ensures that no thread observes loader modules which are just beeing registered by another
+    """
+    @functools.wraps(method)
+    def locked(*args,**kwargs):
+        with _loader_lock:
+            return method(*args,**kwargs)
+    return locked
+
 class LoaderManager(BaseManager):
     """
     Handles the file specific lookup of loader to be used to dump or load
@@ -1148,6 +1163,7 @@ class LoaderManager(BaseManager):
             self._mro = type.mro
         self._file = h_root_group.file
         
+    @_serialized
     def load_loader(self, py_obj_type,*,base_type=None):
         """
         Checks if given `py_obj` requires an additional loader to be handled
-- 
2.43.0


From 646f943631dbc22bed3d5d04ae091e05a5ec8848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:48 +0000
Subject: [PATCH 57/68] fix: loading a hickle 4.0 file failed while another one
 was loaded the name of which differs in its extension only

---
 hickle/lookup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index e1716ea..3dca5b9 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -530,7 +530,8 @@ class ReferenceManager(BaseManager, dict):
                 self._py_obj_type_table = h_root_group.create_group("hickle_types_table",track_order = True)
             else:
                 h5_overlay = h5.File(
-                    '{}.hover'.format(h_root_group.file.filename.rsplit('.',1)[0]),
+                    # no two files may share name of overlay while both are beeing loaded
+                    '{}.{:x}.hover'.format(h_root_group.file.filename.rsplit('.',1)[0],id(self)),
                     mode='w', driver='core',backing_store=False
                 )
                 self._py_obj_type_table = h5_overlay.create_group("hickle_types_table",track_order = True)
-- 
2.43.0


From d602fb567896bbc32da6fe4ab43f5286b961a55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:37 +0000
Subject: [PATCH 58/68] fix: integers of more than 4300 digits could not be
 dumped

---
 hickle/loaders/load_builtins.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 58eceb9..d8a827e 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -72,7 +72,12 @@ def create_scalar_dataset(py_obj, h_group, name, **kwargs):
     # the sign is not counted by bit_length thus any integer which has more than
     # 63 bits has to be converted into string
     if isinstance(py_obj, int) and (py_obj.bit_length() > 63):# and ( py_obj < -2**63 or py_obj >= 2**63 ) :
-        return h_group.create_dataset(name,data = bytearray(str(py_obj), 'ascii'),**kwargs),()
+        try:
+            digits = str(py_obj)
+        except ValueError as error:
+            # python limits the number of digits which can be converted to and from str
+            raise NotHicklable(str(error)) from error
+        return h_group.create_dataset(name,data = bytearray(digits, 'ascii'),**kwargs),()
 
     return h_group.create_dataset(name, data=py_obj, **no_compression(kwargs)),()
 
@@ -314,8 +319,12 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
                         yield r'b"{}"'.format(h_key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                         continue
             elif key.__class__.__module__ == 'builtins' and key_base_type in dict_key_types_dict:
-                h_key = "{!r}".format(key)
-                if not _str_slashes.search(h_key):
+                try:
+                    h_key = "{!r}".format(key)
+                except ValueError:
+                    # python limits the number of digits of int which can be converted to str
+                    h_key = None
+                if h_key is not None and not _str_slashes.search(h_key):
                     yield h_key,py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                     continue
             sub_node_name = key_value_pair_name.format(idx)
-- 
2.43.0


From d235dc3922d7d33a3ff9a255a2c19e582da9fe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:31 +0000
Subject: [PATCH 59/68] fix: strings containing lone surrogates could not be
 dumped

---
 hickle/loaders/load_builtins.py | 10 ++++++----
 hickle/loaders/load_numpy.py    |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index d8a827e..36f866b 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -185,8 +185,8 @@ def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = Non
     if isinstance(py_obj,(str,bytes)):
 
         # strings and bytes are stored as array of bytes with strings encoded
-        # using utf8 encoding
-        string_data = bytearray(py_obj,"utf8") if isinstance(py_obj,str) else memoryview(py_obj)
+        # using utf8 encoding, lone surrogates are allowed in strings too
+        string_data = bytearray(py_obj,"utf8","surrogatepass") if isinstance(py_obj,str) else memoryview(py_obj)
         string_data = np.asarray(string_data)
         string_data.dtype = 'S1'
         dataset = h_group.create_dataset( name, data = string_data,shape = (1,string_data.size), **kwargs)
@@ -265,6 +265,8 @@ def create_setlike_dataset(py_obj,h_group,name,**kwargs):
 # NUL terminates the name of an HDF5 link, anything following it would be lost
 _byte_slashes = re.compile(b'[\\/\0]')
 _str_slashes = re.compile(r'[\\/\0]')
+# names of HDF5 links have to be valid utf8
+_surrogates = re.compile('[\ud800-\udfff]')
 
 def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
 
@@ -306,7 +308,7 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
             # Obtain the raw string representation of this key
             key_base_type = key.__class__.__name__.encode("utf8")
             if key.__class__ is str:
-                if not _str_slashes.search(key):
+                if not _str_slashes.search(key) and not _surrogates.search(key):
                     yield r'"{}"'.format(key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                     continue
             elif key.__class__ is bytes:
@@ -413,7 +415,7 @@ def load_list_dataset(h_node,base_type,py_obj_type):
     elif str_type in (b'str','str') or ( str_type is not None and issubclass(py_obj_type,str) ):
 
         # decode bytes representing python string before final conversion
-        content = bytes(content).decode("utf8")
+        content = bytes(content).decode("utf8","surrogatepass")
     if content.__class__ is py_obj_type:
         return content
     # in contrast to any other tuple namedtuple does not accept a sequence of items
diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index ee9f213..2d1feae 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -108,7 +108,7 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
     elif "str" in dtype.name:
         if py_obj.ndim < 1:
             # convert string to utf8 encoded bytearray
-            string_data = bytearray(py_obj.item(),"utf8") if 'bytes' not in dtype.name else memoryview(py_obj.item())
+            string_data = bytearray(py_obj.item(),"utf8","surrogatepass") if 'bytes' not in dtype.name else memoryview(py_obj.item())
             string_data = np.asarray(string_data)
             string_data.dtype = 'S1'
             h_node = h_group.create_dataset(name,data = string_data,shape=(1,string_data.size),**kwargs)
@@ -249,7 +249,7 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
             # in hickle 4.0.X numpy.ndarrays containing multiple strings are 
             # not converted to list of string but saved as ar consequently
             # itemsize of dtype is > 1
-            string_data = bytes(string_data).decode("utf8")
+            string_data = bytes(string_data).decode("utf8","surrogatepass")
         return np.asarray(string_data,dtype=dtype)
     if issubclass(py_obj_type,np.matrix):
         return py_obj_type(data=h_node[()],dtype=dtype)
-- 
2.43.0


From d4d7931a0ac4451efe6d331a01f6978fbdfd082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:23 +0000
Subject: [PATCH 60/68] fix: instances of str and bytes subclasses with non
 ascii names could not be dumped

---
 hickle/loaders/load_builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 36f866b..94de8eb 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -190,7 +190,7 @@ def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = Non
         string_data = np.asarray(string_data)
         string_data.dtype = 'S1'
         dataset = h_group.create_dataset( name, data = string_data,shape = (1,string_data.size), **kwargs)
-        dataset.attrs["str_type"] = py_obj.__class__.__name__.encode("ascii")
+        dataset.attrs["str_type"] = py_obj.__class__.__name__.encode("utf8")
         return dataset,()
         
     if len(py_obj) < 1:
-- 
2.43.0


From a8d4358c0290a6c570168a50d3ddfc84e8db9bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:55 +0000
Subject: [PATCH 61/68] fix: mask of other shape than the data of a masked
 array was silently repeated or reshaped

---
 hickle/loaders/load_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 2d1feae..3811263 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -353,6 +353,9 @@ class NDMaskedArrayContainer(PyContainer):
         dtype = np.dtype(self._h5_attrs['np_dtype'])
         if dtype.kind == 'V':
             dtype = self._content['data'].dtype
+        if np.shape(self._content['mask']) not in ((),np.shape(self._content['data'])):
+            # numpy.ma would silently reshape or repeat the mask where possible
+            raise ValueError("shape of mask does not match shape of data")
         data = np.ma.array(self._content['data'], mask=self._content['mask'], dtype=dtype)
         return data if data.__class__ is self.object_type or isinstance(self.object_type,types.LambdaType) else self.object_type(data)
 
-- 
2.43.0


From 9ee637b20334d0e1d89a7227f5f5d35171178700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:09 +0000
Subject: [PATCH 62/68] fix: items of an object array not covered by its stored
 shape were silently dropped

---
 hickle/loaders/load_numpy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 3811263..ee19b7c 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -331,7 +331,9 @@ class NDArrayLikeContainer(ListLikeContainer):
             data = np.empty(int(np.prod(shape)),dtype = self._h5_attrs['np_dtype'])
             for position,index in enumerate(np.ndindex(*shape)):
                 item = self._content
-                for axis_index in index:
+                for axis_length,axis_index in zip(shape,index):
+                    if len(item) != axis_length:
+                        raise ValueError("number of items does not match shape of array")
                     item = item[axis_index]
                 data[position] = item
             data = data.reshape(tuple(shape))
-- 
2.43.0


From 5621900ee697e8d8c3ee3b4a0bd2d3bdfe63bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:17 +0000
Subject: [PATCH 63/68] fix: sparse matrices of foreign byte order or float16
 could be dumped but not loaded

---
 hickle/loaders/load_scipy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_scipy.py b/hickle/loaders/load_scipy.py
index 51c73c0..26bd129 100644
--- a/hickle/loaders/load_scipy.py
+++ b/hickle/loaders/load_scipy.py
@@ -114,7 +114,8 @@ class SparseMatrixContainer(PyContainer):
         for name,index in self._index_name_map.items():
             if self._content[index] is None:
                 raise KeyError("'{}' of sparse matrix missing".format(name))
-        return self.object_type(tuple(self._content[:3]),dtype=self._content[0].dtype,shape=self._content[3])
+        # NOTE: dtype is that of data, some are accepted by scipy that way only (byte order)
+        return self.object_type(tuple(self._content[:3]),shape=self._content[3])
 
 # %% REGISTERS
 class_register = [
-- 
2.43.0


From 6aa3f2cd7d59f7243d265b38ffb4c794726cb712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:33 +0000
Subject: [PATCH 64/68] fix: integer and extended precision quantities, angles
 and coordinates were rounded silently

---
 hickle/loaders/load_astropy.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 5bddd75..e6b7082 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -33,6 +33,23 @@ def ensure_unit_restorable(unit):
         raise NotHicklable("unit '{}' can not be restored from its string representation".format(unit))
 
 
+def ensure_value_restorable(value):
+    """
+    raises NotHicklable if value is altered when stored as 64 bit float
+    e.g. large integers and floats of higher precision
+
+    Parameters
+    ----------
+    value:
+        the value of the object to be stored
+    """
+    value = np.asarray(value)
+    if value.dtype.kind in 'iu' or ( value.dtype.kind == 'f' and value.dtype.itemsize > 8 ):
+        # NOTE: python compares integers and floats by their exact values
+        if np.any((value.astype('float64').astype(object) != value.astype(object)) & (value == value)):
+            raise NotHicklable("value can not be represented by 64 bit float")
+
+
 def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     """
     dumps an astropy quantity
@@ -59,6 +76,7 @@ def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     ensure_unit_restorable(py_obj.unit)
     if isinstance(py_obj,Masked):
         raise NotHicklable("mask of '{}' can not be restored".format(py_obj.__class__.__name__))
+    ensure_value_restorable(py_obj.value)
     d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
                                **no_compression(kwargs))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
@@ -93,6 +111,7 @@ def create_astropy_angle(py_obj, h_group, name, **kwargs):
     if isinstance(py_obj,Longitude) and py_obj.wrap_angle != Longitude(0,'deg').wrap_angle:
         # values would be wrapped at the default angle on load
         raise NotHicklable("wrap_angle can not be restored")
+    ensure_value_restorable(py_obj.value)
     d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
                                **no_compression(kwargs))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
@@ -133,6 +152,7 @@ def create_astropy_skycoord(py_obj, h_group, name, **kwargs):
     lon = py_obj.data.lon.value
     lat = py_obj.data.lat.value
     dd = np.stack((lon, lat), axis=-1)
+    ensure_value_restorable(dd)
 
     d = h_group.create_dataset(name, data=dd, dtype='float64', **kwargs)
     lon_unit = py_obj.data.lon.unit.to_string().encode('ascii')
-- 
2.43.0


From b5e2529078ced1603e8196c939eca22bc8dbfc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:31 +0000
Subject: [PATCH 65/68] fix: complex numbers of extended precision in foreign
 byte order were corrupted

---
 hickle/helpers.py              | 11 +++++++++++
 hickle/loaders/load_astropy.py |  4 +++-
 hickle/loaders/load_numpy.py   |  8 +++++++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/hickle/helpers.py b/hickle/helpers.py
index 5a36e48..35c4522 100644
--- a/hickle/helpers.py
+++ b/hickle/helpers.py
@@ -208,6 +208,17 @@ class no_compression(dict):
 
 # %% FUNCTION DEFINITIONS
 
+def is_swapped_clongdouble(dtype):
+    """
+    checks if dtype is or contains complex numbers of extended precision in foreign byte order,
+    which h5py stores as if they were in native byte order without converting them
+    """
+    if dtype.names is not None:
+        return any(is_swapped_clongdouble(field[0]) for field in dtype.fields.values())
+    dtype = dtype.base
+    return is_swapped_clongdouble(dtype) if dtype.names is not None else dtype.char == 'G' and not dtype.isnative
+
+
 def not_dumpable( py_obj, h_group, name, **kwargs): # pragma: no cover
     """
     create_dataset method attached to loader of dummy py_object which is used to
diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index e6b7082..1b6404b 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -11,7 +11,7 @@ import numpy as np
 import sys
 
 # hickle imports
-from hickle.helpers import NotHicklable,no_compression,load_str_list_attr_ascii,load_str_attr_ascii
+from hickle.helpers import NotHicklable,no_compression,load_str_list_attr_ascii,load_str_attr_ascii,is_swapped_clongdouble
 
 
 # %% FUNCTION DEFINITIONS
@@ -281,6 +281,8 @@ def create_astropy_table(py_obj, h_group, name, **kwargs):
         # only the bare data is stored, loading would yield table without mask and units
         raise NotHicklable("mask, units and mixin columns can not be restored")
     data = py_obj.as_array()
+    if is_swapped_clongdouble(data.dtype):
+        raise TypeError("no HDF5 equivalent for dtype {!r}".format(data.dtype))
     d = h_group.create_dataset(name, data=data, dtype=data.dtype, **kwargs)
 
     colnames = [cn.encode('ascii') for cn in py_obj.colnames]
diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index ee19b7c..2838f20 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -13,7 +13,7 @@ import types
 
 # hickle imports
 from hickle.loaders.load_builtins import create_listlike_dataset,ListLikeContainer
-from hickle.helpers import PyContainer,NotHicklable,no_compression,nobody_is_my_name
+from hickle.helpers import PyContainer,NotHicklable,no_compression,nobody_is_my_name,is_swapped_clongdouble
 
 
 # %% FUNCTION DEFINITIONS
@@ -40,6 +40,8 @@ def create_np_scalar_dataset(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset and empty list of subitems
     """
 
+    if is_swapped_clongdouble(py_obj.dtype):
+        raise TypeError("no HDF5 equivalent for dtype {!r}".format(py_obj.dtype))
     d = h_group.create_dataset(name, data=py_obj, **no_compression(kwargs))
 
     d.attrs["np_dtype"] = py_obj.dtype.str.encode("ascii")
@@ -132,6 +134,10 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
         # required to tell items which are sequences from dimensions of the array
         h_node.attrs['np_shape'] = shape
     else:
+        if is_swapped_clongdouble(dtype):
+            if dtype.names is not None:
+                raise TypeError("no HDF5 equivalent for dtype {!r}".format(dtype))
+            py_obj = py_obj.astype(dtype.newbyteorder('='))
         h_node = h_group.create_dataset(
             name, data=py_obj,
             **( no_compression(kwargs) if "bytes" in dtype.name or py_obj.ndim < 1 else kwargs )
-- 
2.43.0


From 77cbf38a19d3a0d1a4c2806d4020a6484fc4054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:42 +0000
Subject: [PATCH 66/68] fix: requested compression was ignored for arrays of
 astropy quantities, angles and times

---
 hickle/loaders/load_astropy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 1b6404b..6ecc635 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -78,7 +78,7 @@ def create_astropy_quantity(py_obj, h_group, name, **kwargs):
         raise NotHicklable("mask of '{}' can not be restored".format(py_obj.__class__.__name__))
     ensure_value_restorable(py_obj.value)
     d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
-                               **no_compression(kwargs))
+                               **( kwargs if py_obj.ndim > 0 else no_compression(kwargs) ))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
     return d,()
 
@@ -113,7 +113,7 @@ def create_astropy_angle(py_obj, h_group, name, **kwargs):
         raise NotHicklable("wrap_angle can not be restored")
     ensure_value_restorable(py_obj.value)
     d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
-                               **no_compression(kwargs))
+                               **( kwargs if py_obj.ndim > 0 else no_compression(kwargs) ))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
     return d,()
 
@@ -204,7 +204,10 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
             **( kwargs if value.ndim > 0 else no_compression(kwargs) )
         )
     else:
-        d = h_group.create_dataset(name, data=value, dtype=value.dtype)
+        d = h_group.create_dataset(
+            name, data=value, dtype=value.dtype,
+            **( kwargs if value.ndim > 0 else no_compression(kwargs) )
+        )
     d.attrs['np_dtype'] = value.dtype.str.encode('ascii')
 
     d.attrs['format'] = str(py_obj.format).encode('ascii')
-- 
2.43.0


From 9ce46d688fc3c595a9a256a092c2fc460ee0fdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:25 +0000
Subject: [PATCH 67/68] fix: dicts with several nan keys could not be dumped

---
 hickle/loaders/load_builtins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 94de8eb..a40dbdb 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -304,6 +304,7 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
         generator yielding appropriate parameters for dumping each
         dict key value pair
         """
+        nan_count = 0
         for idx, (key, py_subobj) in enumerate(py_obj.items()):
             # Obtain the raw string representation of this key
             key_base_type = key.__class__.__name__.encode("utf8")
@@ -327,6 +328,10 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
                     # python limits the number of digits of int which can be converted to str
                     h_key = None
                 if h_key is not None and not _str_slashes.search(h_key):
+                    if key != key:
+                        # all nan keys look the same, trailing spaces are ignored when converting them back
+                        h_key += ' ' * nan_count
+                        nan_count += 1
                     yield h_key,py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                     continue
             sub_node_name = key_value_pair_name.format(idx)
-- 
2.43.0


From 7f0ccb40959582896438279a71c1388beca4d28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:11 +0000
Subject: [PATCH 68/68] fix: titles of fields of structured arrays were lost

---
 hickle/loaders/load_numpy.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 2838f20..02cdfb0 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -17,6 +17,17 @@ from hickle.helpers import PyContainer,NotHicklable,no_compression,nobody_is_my_
 
 
 # %% FUNCTION DEFINITIONS
+def ensure_fields_restorable(dtype):
+    """
+    raises NotHicklable if any field of dtype has a title, HDF5 stores the names of fields only
+    """
+    dtype = dtype.base
+    if dtype.names is not None:
+        if len(dtype.fields) > len(dtype.names):
+            raise NotHicklable("titles of fields can not be restored")
+        for field in dtype.fields.values():
+            ensure_fields_restorable(field[0])
+
 
 def create_np_scalar_dataset(py_obj, h_group, name, **kwargs):
     """ dumps an numpy.dtype object to h5py file
@@ -40,6 +51,7 @@ def create_np_scalar_dataset(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset and empty list of subitems
     """
 
+    ensure_fields_restorable(py_obj.dtype)
     if is_swapped_clongdouble(py_obj.dtype):
         raise TypeError("no HDF5 equivalent for dtype {!r}".format(py_obj.dtype))
     d = h_group.create_dataset(name, data=py_obj, **no_compression(kwargs))
@@ -100,6 +112,7 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
 
     # Obtain dtype of py_obj
     dtype = py_obj.dtype
+    ensure_fields_restorable(dtype)
 
     # Check if py_obj contains strings
     if py_obj.size < 1 and ( "str" in dtype.name or dtype.name == 'object' ):
-- 
2.43.0

