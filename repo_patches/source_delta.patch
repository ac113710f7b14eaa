From e9091aa8963262715fd9675a71575b8fae52f931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 01/63] fix: read JSON from a file path given as a string

from_json loaded the file and then parsed the path itself as JSON text,
so a string path always raised JSONDecodeError.
---
 mt_metadata/base/metadata.py         | 15 ++++++++-------
 mt_metadata/timeseries/experiment.py | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 1c88e17..5f81b94 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1257,13 +1257,14 @@ class MetadataBase(DotNotationBaseModel):
         """
         if isinstance(json_str, str):
             try:
-                json_path = Path(json_str)
-                if json_path.exists():
-                    with open(json_path, "r") as fid:
-                        json_dict = json.load(fid)
-            except OSError:
-                pass
-            json_dict = json.loads(json_str)
+                is_file = Path(json_str).is_file()
+            except (OSError, ValueError):
+                is_file = False
+            if is_file:
+                with open(json_str, "r") as fid:
+                    json_dict = json.load(fid)
+            else:
+                json_dict = json.loads(json_str)
         elif isinstance(json_str, Path):
             if json_str.exists():
                 with open(json_str, "r") as fid:
diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 976ec0a..8793d83 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -350,13 +350,14 @@ class Experiment(MetadataBase):
         """
         if isinstance(json_str, str):
             try:
-                json_path = Path(json_str)
-                if json_path.exists():
-                    with open(json_path, "r") as fid:
-                        json_dict = json.load(fid)
-            except OSError:
-                pass
-            json_dict = json.loads(json_str)
+                is_file = Path(json_str).is_file()
+            except (OSError, ValueError):
+                is_file = False
+            if is_file:
+                with open(json_str, "r") as fid:
+                    json_dict = json.load(fid)
+            else:
+                json_dict = json.loads(json_str)
         elif isinstance(json_str, Path):
             if json_str.exists():
                 with open(json_str, "r") as fid:
-- 
2.43.0


From d0e363679f077a4ba0ba404b6653f20cd8b5470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 02/63] fix: read complex arrays back from JSON

Complex arrays are written as {real, imag}; on reading that mapping was
flattened into dotted names, so poles and zeros were lost or raised.
---
 mt_metadata/base/helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index cab2b67..eac7a2b 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -561,7 +561,7 @@ def flatten_dict(meta_dict, parent_key=None, sep="."):
             new_key = f"{parent_key}{sep}{key}"
         else:
             new_key = key
-        if isinstance(value, MutableMapping):
+        if isinstance(value, MutableMapping) and set(value) != {"real", "imag"}:
             items.extend(flatten_dict(value, new_key, sep=sep).items())
         else:
             items.append((new_key, value))
@@ -1133,6 +1133,10 @@ def object_to_array(value, dtype=float):
     """
     if value is None:
         return np.empty(0)
+    elif isinstance(value, dict) and set(value) == {"real", "imag"}:
+        # complex arrays are written to JSON as separate real and imaginary parts
+        value = np.array(value["real"]) + 1j * np.array(value["imag"])
+        return value.astype(dtype)
     elif isinstance(value, (list, tuple)):
         return np.array(value, dtype=dtype)
     elif isinstance(value, np.ndarray):
-- 
2.43.0


From 918396c220c41a3e82bf88b9f962b664a94294d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 03/63] fix: z-file Channel.from_dict reads its own to_dict
 output

The class-name wrapper of to_dict was taken for the channel name.
---
 mt_metadata/transfer_functions/io/zfiles/metadata/channel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py b/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py
index 37c52ae..19009c1 100644
--- a/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py
+++ b/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py
@@ -126,6 +126,11 @@ class Channel(MetadataBase):
         fill attributes from a dictionary
         """
 
+        if len(channel_dict) == 1:
+            (value,) = channel_dict.values()
+            if isinstance(value, dict):
+                channel_dict = value
+
         for key, value in channel_dict.items():
             if key in ["azm", "azimuth", "measurement_azimuth"]:
                 self.azimuth = value
-- 
2.43.0


From 679afae48a0e37ad97a5537eb1f333efe0dee430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 04/63] fix: FundingSource reads the empty url it exports

An unset url is exported as an empty string, which was then rejected as an
invalid url when the exported metadata was loaded again.
---
 mt_metadata/common/funding_source.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/common/funding_source.py b/mt_metadata/common/funding_source.py
index ee48ccc..b8e2564 100644
--- a/mt_metadata/common/funding_source.py
+++ b/mt_metadata/common/funding_source.py
@@ -130,11 +130,11 @@ class FundingSource(MetadataBase):
         elif isinstance(value, (EmailStr, AnyHttpUrl)):
             return [value]
 
+        elif value is None or value == "":
+            return None
+
         elif isinstance(value, str):
             return [item.strip() for item in value.split(",")]
 
-        elif value is None:
-            return None
-
         else:
             raise TypeError(f"Cannot form a list from types {type(value)}.")
-- 
2.43.0


From dc64398c0eca7d99ef7339663657cf14bb83f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 05/63] fix: keep dotted fields when constructing from a
 class-name wrapper

Dotted names inside {class name: {...}} were stored as extra attributes
instead of reaching the nested field, so e.g. the author and time stamp of
an applied filter's comment were lost when a channel was rebuilt.
---
 mt_metadata/base/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 5f81b94..cafbe30 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -88,7 +88,7 @@ class DotNotationBaseModel(BaseModel):
                     if isinstance(value, dict):
                         # If the value is a dict, we need to flatten it
                         for nested_key, nested_value in value.items():
-                            if isinstance(nested_value, dict):
+                            if isinstance(nested_value, dict) or "." in nested_key:
                                 # Flatten nested dicts
                                 self._set_nested_attribute(
                                     nested_data, nested_key, nested_value
-- 
2.43.0


From f34c9dfea264a67220629c9c6b6928910028189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 06/63] fix: write numeric array fields to XML

---
 mt_metadata/base/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index eac7a2b..7db7942 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -770,7 +770,9 @@ def recursive_split_xml(element, item, base, name, attr_dict=None):
     elif item is None:
         # Leave element.text as None so XML has empty element (no text)
         pass
-    elif isinstance(item, (float, int)):
+    elif isinstance(item, np.ndarray):
+        recursive_split_xml(element, item.tolist(), base, name, attr_dict)
+    elif isinstance(item, (float, int, complex)):
         element.text = str(item)
     else:
         # if the value is an hdf5 reference make it a string
-- 
2.43.0


From f963c74b61acf334bc54b5458c407221cf0cdc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 07/63] fix: Channel.from_dict reads a single filter exported
 to XML

---
 mt_metadata/timeseries/channel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index c72d19b..0d8553e 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -731,15 +731,16 @@ class ChannelBase(MetadataBase):
                         f"input = {class_name}, class type = {self.__class__.__name__}"
                     )
                     logger.debug(msg, class_name, self.__class__.__name__)
-                meta_dict = helpers.flatten_dict(meta_dict[class_name])
-            else:
-                meta_dict = helpers.flatten_dict(meta_dict)
+                meta_dict = meta_dict[class_name]
 
         else:
             logger.debug(
                 f"Assuming input dictionary is of type {self.__class__.__name__}",
             )
-            meta_dict = helpers.flatten_dict(meta_dict)
+        # a single filter read from XML is a dictionary, not a list
+        if isinstance(meta_dict.get("filters"), dict):
+            meta_dict = {**meta_dict, "filters": [meta_dict["filters"]]}
+        meta_dict = helpers.flatten_dict(meta_dict)
 
         # Handle all legacy filter formats (both 'filter' and 'filtered')
         # Process them in order: 'filter' (oldest) first, then 'filtered' (old)
-- 
2.43.0


From da94efa34d45f4ccd8c856058bcb9833ccb94f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 08/63] fix: Experiment.from_xml reads a survey with one filter
 of a type, and FIR filters

---
 mt_metadata/timeseries/experiment.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 8793d83..ca3d5a9 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -461,9 +461,10 @@ class Experiment(MetadataBase):
         for survey_element in list(experiment_element):
             survey_dict = helpers.element_to_dict(survey_element)
             stations = self._pop_dictionary(survey_dict["survey"], "station")
+            # the filters are read on their own, they are keyed by type here
+            fd = survey_dict["survey"].pop("filters")
             survey_obj = Survey()
             survey_obj.from_dict(survey_dict, skip_none=skip_none)
-            fd = survey_dict["survey"].pop("filters")
             filter_dict = self._read_filter_dict(fd)
             survey_obj.filters.update(filter_dict)
 
@@ -567,7 +568,7 @@ class Experiment(MetadataBase):
                         mt_filter = PoleZeroFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = PoleZeroFilter(value)
+                    mt_filter = PoleZeroFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["coefficient_filter"]:
@@ -576,7 +577,7 @@ class Experiment(MetadataBase):
                         mt_filter = CoefficientFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = CoefficientFilter(value)
+                    mt_filter = CoefficientFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["time_delay_filter"]:
@@ -585,7 +586,7 @@ class Experiment(MetadataBase):
                         mt_filter = TimeDelayFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = TimeDelayFilter(value)
+                    mt_filter = TimeDelayFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["frequency_response_table_filter"]:
@@ -594,16 +595,16 @@ class Experiment(MetadataBase):
                         mt_filter = FrequencyResponseTableFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = FrequencyResponseTableFilter(value)
+                    mt_filter = FrequencyResponseTableFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
-            elif key in ["fir_filter"]:
+            elif key in ["fir_filter", "f_i_r_filter"]:
                 if isinstance(value, list):
                     for v in value:
                         mt_filter = FIRFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = FIRFilter(value)
+                    mt_filter = FIRFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
         return return_dict
-- 
2.43.0


From 1e2b0adb57cc2104ccead716aeb501af6ebaae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 09/63] fix: read a single complex number given as text

---
 mt_metadata/base/helpers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index 7db7942..a774e41 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -1152,6 +1152,11 @@ def object_to_array(value, dtype=float):
             raise TypeError(msg)
 
         elif has_numbers(value) and not is_numeric_string(value):
+            if dtype is complex:
+                try:
+                    return np.array([complex(value)], dtype=dtype)
+                except ValueError:
+                    pass
             value = extract_numbers(value)
             return np.array(value, dtype=dtype)
 
-- 
2.43.0


From 2b890696993781f826a1c65943e921999088ad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 10/63] fix: FIRFilter reads a single coefficient given as text

---
 mt_metadata/timeseries/filters/fir_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/filters/fir_filter.py b/mt_metadata/timeseries/filters/fir_filter.py
index 1684167..21378f0 100644
--- a/mt_metadata/timeseries/filters/fir_filter.py
+++ b/mt_metadata/timeseries/filters/fir_filter.py
@@ -112,7 +112,7 @@ class FIRFilter(FilterBase):
         ),
     ]
 
-    @field_validator("coefficients")
+    @field_validator("coefficients", mode="before")
     @classmethod
     def validate_coefficients(
         cls, value: list[float], info: ValidationInfo
-- 
2.43.0


From 9fbc791dc32754d4385f01abcf4e61a8f6d45f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 11/63] fix: write a list of URLs to XML

---
 mt_metadata/base/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index a774e41..93ad956 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -25,6 +25,7 @@ from xml.etree import cElementTree as et
 
 import numpy as np
 from loguru import logger
+from pydantic import AnyUrl
 from pydantic.fields import FieldInfo
 from pydantic_core import PydanticUndefined
 
@@ -776,7 +777,7 @@ def recursive_split_xml(element, item, base, name, attr_dict=None):
         element.text = str(item)
     else:
         # if the value is an hdf5 reference make it a string
-        if "reference" in str(type(item)).lower():
+        if "reference" in str(type(item)).lower() or isinstance(item, AnyUrl):
             element.text = str(item)
         else:
             raise ValueError("Value cannot be {0}".format(type(item)))
-- 
2.43.0


From 2a78292f5c19af6976883192bc3762a9dfad4aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 12/63] fix: assigning a list of decimations to Processing no
 longer doubles it

---
 mt_metadata/processing/aurora/processing.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/mt_metadata/processing/aurora/processing.py b/mt_metadata/processing/aurora/processing.py
index 87466f9..979736a 100644
--- a/mt_metadata/processing/aurora/processing.py
+++ b/mt_metadata/processing/aurora/processing.py
@@ -122,9 +122,6 @@ class Processing(MetadataBase):
                     decimation_levels.append(obj)
 
         elif isinstance(value, list):
-            for obj in value:
-                if isinstance(obj, DecimationLevel):
-                    decimation_levels.append(obj)
             for obj in value:
                 if isinstance(obj, DecimationLevel):
                     decimation_levels.append(obj)
-- 
2.43.0


From 1077fcfcf8eb0fa0e748f3f5bd3d846b4df51d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 13/63] fix: Zonge CH keeps a tuple of values as a list

---
 mt_metadata/transfer_functions/io/zonge/metadata/ch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/zonge/metadata/ch.py b/mt_metadata/transfer_functions/io/zonge/metadata/ch.py
index e580fd7..6889b43 100644
--- a/mt_metadata/transfer_functions/io/zonge/metadata/ch.py
+++ b/mt_metadata/transfer_functions/io/zonge/metadata/ch.py
@@ -141,8 +141,8 @@ class CH(MetadataBase):
         """
         if v is None:
             return None
-        if isinstance(v, list):
-            return v
+        if isinstance(v, (list, tuple)):
+            return list(v)
         if isinstance(v, str):
             # If the value contains a comma, split into a list
             if "," in v:
-- 
2.43.0


From 5c167ce628bc7404bb5ee5dbb75c2ac9946eafb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:12 +0000
Subject: [PATCH 14/63] fix: TimeSeriesDecimation refuses a negative level on
 assignment

---
 .../processing/time_series_decimation.py      | 26 +++++--------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/mt_metadata/processing/time_series_decimation.py b/mt_metadata/processing/time_series_decimation.py
index e01ced4..e766005 100644
--- a/mt_metadata/processing/time_series_decimation.py
+++ b/mt_metadata/processing/time_series_decimation.py
@@ -3,7 +3,7 @@
 # =====================================================
 from typing import Annotated
 
-from pydantic import Field, model_validator
+from pydantic import Field, field_validator
 
 from mt_metadata.base import MetadataBase
 from mt_metadata.common.enumerations import StrEnumerationBase
@@ -86,24 +86,10 @@ class TimeSeriesDecimation(MetadataBase):
         ),
     ]
 
-    @model_validator(mode="before")
+    @field_validator("level")
     @classmethod
-    def check_level(cls, values):
-        """Check that level is a non-negative integer and set anti_alias_filter for level 0."""
-        # Handle both dict and model instances
-        if isinstance(values, dict):
-            level = values.get("level")
-        else:
-            level = getattr(values, "level", None)
-
-        # Only perform validation if level is an integer or None
-        if level is not None and isinstance(level, int) and level < 0:
+    def check_level(cls, level):
+        """Check that level is a non-negative integer."""
+        if level is not None and level < 0:
             raise ValueError("Decimation level must be a non-negative integer.")
-        # elif level == 0:
-        #     # Set anti_alias_filter to None for level 0
-        #     if isinstance(values, dict):
-        #         values["anti_alias_filter"] = None
-        #     else:
-        #         values.anti_alias_filter = None
-
-        return values
+        return level
-- 
2.43.0


From a633f0d24cdf968c2cd2651046faa1a7f860f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 15/63] fix: comparing a Comment with None gives a boolean

---
 mt_metadata/common/comment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/common/comment.py b/mt_metadata/common/comment.py
index 4be889a..b0fdb1e 100644
--- a/mt_metadata/common/comment.py
+++ b/mt_metadata/common/comment.py
@@ -125,7 +125,7 @@ class Comment(MetadataBase):
             True if the objects are equal, False otherwise.
         """
         if other is None:
-            return Comment(value=None)  # type: ignore
+            other = Comment(value=None)  # type: ignore
         if isinstance(other, str):
             other = Comment(value=other)  # type: ignore
         elif isinstance(other, dict):
-- 
2.43.0


From e8ff5082e3b6fd8892bbf0cbc55d5d86febaada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 16/63] fix: compare metadata with its dictionary, JSON, Series
 and XML forms

---
 mt_metadata/base/metadata.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index cafbe30..4f71b28 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -410,16 +410,15 @@ class MetadataBase(DotNotationBaseModel):
 
         elif isinstance(other, (dict, str, pd.Series, et.Element)):
             try:
-                # Attempt to load the other object into a new instance of MetadataBase
+                # Attempt to load the other object into a new instance of this class
                 # This will ensure that the other object has the same attributes as self
-                other_obj = __class__().load(other)
+                other_obj = self.__class__()
+                other_obj.load(other)
             except Exception as e:
                 logger.error(
                     f"Failed to load other object of type {type(other)}: {other}. Error is: {e} "
                 )
                 return False
-            if not other_obj:
-                return False
 
             if hasattr(other_obj, "to_dict") and callable(other_obj.to_dict):
                 other_dict = other_obj.to_dict(single=True, required=False)
-- 
2.43.0


From b3df3bf08b28509236510c46fa9bd7d08e2b0b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 17/63] fix: equality of metadata holding lists of arrays

---
 mt_metadata/base/metadata.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 4f71b28..9327c8e 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -485,7 +485,14 @@ class MetadataBase(DotNotationBaseModel):
                 else:
                     if value in NULL_VALUES and other_value in NULL_VALUES:
                         continue
-                    if value != other_value:
+                    try:
+                        differ = value != other_value
+                    except ValueError:
+                        # arrays within lists cannot be compared directly
+                        differ = json.dumps(
+                            value, cls=helpers.NumpyEncoder
+                        ) != json.dumps(other_value, cls=helpers.NumpyEncoder)
+                    if differ:
                         msg = f"{key}: {value} != {other_value}"
                         logger.info(msg)
                         equals = False
-- 
2.43.0


From 08e4b7047ca9026d03450dabf1f1d06ca62ee457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 18/63] fix: update copies array values and lists of them

---
 mt_metadata/base/metadata.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 9327c8e..6c379b8 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -13,6 +13,7 @@ from __future__ import annotations
 
 import json
 from collections import OrderedDict
+from copy import deepcopy
 from enum import Enum
 
 # =============================================================================
@@ -606,14 +607,18 @@ class MetadataBase(DotNotationBaseModel):
         for k, v in other.to_dict(single=True).items():
             if hasattr(v, "size"):
                 if v.size > 0:
-                    self.update_attribute(k, v)
+                    # the two objects must not share the data
+                    self.update_attribute(k, v.copy() if hasattr(v, "copy") else v)
             else:
                 if (
                     v
                     not in [None, 0.0, [], "", "1980-01-01T00:00:00+00:00"]
                     + NULL_VALUES
                 ):
-                    self.update_attribute(k, v)
+                    # the two objects must not share lists of data
+                    self.update_attribute(
+                        k, deepcopy(v) if isinstance(v, (list, dict)) else v
+                    )
 
     ## cannot override the __deepcopy__ method in pydantic.BaseModel otherwise bad
     ## things happen
-- 
2.43.0


From b217c40523afb09767376f1bcddbfd0c3b9d33bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 19/63] fix: equality of a number and a text or list value
 gives False

---
 mt_metadata/base/metadata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 6c379b8..e552c48 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -479,6 +479,12 @@ class MetadataBase(DotNotationBaseModel):
                             msg = f"{key}: {value} != {other_value}"
                             logger.info(msg)
                             equals = False
+                    elif not isinstance(
+                        other_value, (float, int, complex, np.number)
+                    ):
+                        msg = f"{key}: {value} != {other_value}"
+                        logger.info(msg)
+                        equals = False
                     elif not np.isclose(value, other_value):
                         msg = f"{key}: {value} != {other_value}"
                         logger.info(msg)
-- 
2.43.0


From f0d737e6637a03994a475af5a4698e1c01a51dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 20/63] fix: callers cannot change the cached field catalogue

---
 mt_metadata/base/metadata.py         | 20 ++++++++++++++---
 mt_metadata/base/pydantic_helpers.py | 32 ++++++++++++++++++++++++++--
 2 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index e552c48..d29dc6b 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -723,9 +723,23 @@ class MetadataBase(DotNotationBaseModel):
             within the class.
         """
 
+        return deepcopy(self._get_field_map())
+
+    def _get_field_map(self) -> dict:
+        """
+        The flattened dictionary behind `get_all_fields`, shared and not to be
+        changed.
+
+        Returns
+        -------
+        Dict
+            A flattened dictionary of dotted keys of all attributes
+            within the class.
+        """
+
         if not self._fields:
             self._fields = pydantic_helpers.flatten_field_tree_map(
-                pydantic_helpers.get_all_fields_serializable(self)
+                pydantic_helpers.get_cached_fields_tree(self)
             )
         return self._fields
 
@@ -739,7 +753,7 @@ class MetadataBase(DotNotationBaseModel):
             A list of attribute names
         """
 
-        return sorted(self.get_all_fields().keys())
+        return sorted(self._get_field_map().keys())
 
     @property
     def _required_fields(self) -> list[str]:
@@ -761,7 +775,7 @@ class MetadataBase(DotNotationBaseModel):
         not by Pydantic's required_on_init behavior.
         """
         required_fields = []
-        for name, field_dict in self.get_all_fields().items():
+        for name, field_dict in self._get_field_map().items():
             required = field_dict.get("required", False)
             if required:
                 required_fields.append(name)
diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index 404964b..a6fd07f 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -41,6 +41,7 @@ Notes
 
 from __future__ import annotations
 
+import copy
 import enum
 import hashlib
 import json
@@ -113,6 +114,28 @@ def get_all_fields_serializable(
     - Uses a sentinel write to the cache prior to recursion to break cycles.
     - The on-disk cache file name is derived from the class's fully-qualified name,
       Pydantic version, and a fingerprint of the field schema.
+    - The dictionary returned belongs to the caller, changing it does not change
+      the cached tree.
+    """
+    return copy.deepcopy(get_cached_fields_tree(model_or_cls))
+
+
+def get_cached_fields_tree(
+    model_or_cls: Union[type[BaseModel], BaseModel],
+) -> Dict[str, Any]:
+    """
+    Same as :func:`get_all_fields_serializable` but returns the cached tree
+    itself, which must not be changed.
+
+    Parameters
+    ----------
+    model_or_cls : type[BaseModel] or BaseModel
+        The BaseModel class (preferred) or an instance.
+
+    Returns
+    -------
+    Dict[str, Any]
+        The cached tree.
     """
     model_cls: type[BaseModel] = (
         model_or_cls if isinstance(model_or_cls, type) else type(model_or_cls)
@@ -134,7 +157,12 @@ def get_all_fields_serializable(
         _FIELDS_TREE_CACHE[model_cls] = {}
 
         # Compute and persist
-        tree = _compute_fields_tree(model_cls)
+        try:
+            tree = _compute_fields_tree(model_cls)
+        except BaseException:
+            # do not leave the sentinel behind, for instance on Ctrl-C
+            _FIELDS_TREE_CACHE.pop(model_cls, None)
+            raise
         _FIELDS_TREE_CACHE[model_cls] = tree
 
         if not _DISABLE_DISK_CACHE:
@@ -243,7 +271,7 @@ def _compute_fields_tree(model_cls: type[BaseModel]) -> Dict[str, Any]:
             and _is_basemodel_subclass(base_type)
             and base_type.__name__ not in SPECIAL_CASE_MODEL_NAMES
         ):
-            out[field_name] = get_all_fields_serializable(base_type)
+            out[field_name] = get_cached_fields_tree(base_type)
         else:
             out[field_name] = _to_serializable_field(
                 field_info, model_cls, field_name, validators_map
-- 
2.43.0


From 4761001ff879ce4e7bb4cde995917dab627fa126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 21/63] fix: field cache notices a change in a nested model,
 description, factory or options

---
 mt_metadata/base/pydantic_helpers.py | 41 +++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index a6fd07f..a936971 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -729,7 +729,38 @@ def _cache_dir() -> str:
 #     return path
 
 
-def _model_fingerprint(model_cls: type[BaseModel]) -> str:
+def _nested_fingerprint(
+    field_info: Any, parents: tuple[type[BaseModel], ...]
+) -> str:
+    """
+    Fingerprint of the model a field holds, empty for any other field.
+
+    Parameters
+    ----------
+    field_info : Any
+        Pydantic field info
+    parents : tuple[type[BaseModel], ...]
+        Models being fingerprinted already, to break cycles
+
+    Returns
+    -------
+    str
+        Fingerprint of the nested model, or ""
+    """
+    base_type = _extract_base_type(getattr(field_info, "annotation", None))
+    if (
+        base_type
+        and _is_basemodel_subclass(base_type)
+        and base_type.__name__ not in SPECIAL_CASE_MODEL_NAMES
+        and base_type not in parents
+    ):
+        return _model_fingerprint(base_type, parents)
+    return ""
+
+
+def _model_fingerprint(
+    model_cls: type[BaseModel], _parents: tuple[type[BaseModel], ...] = ()
+) -> str:
     """
     Compute a stable fingerprint for a model class's fields.
 
@@ -748,7 +779,10 @@ def _model_fingerprint(model_cls: type[BaseModel]) -> str:
     - Uses a sorted JSON of tuples:
         (name, deprecated, annotation repr, default repr, json_schema_extra snapshot)
     - Change in any of these will produce a different fingerprint, refreshing the disk cache.
+    - The description, default factory, validators, enum members and, for a field
+      that is itself a model, the fingerprint of that model are included.
     """
+    validators_map = _collect_field_validator_map(model_cls)
     field_map = getattr(model_cls, "model_fields", None) or getattr(
         model_cls, "__pydantic_fields__", {}
     )
@@ -774,6 +808,11 @@ def _model_fingerprint(model_cls: type[BaseModel]) -> str:
                 repr(getattr(info, "annotation", None)),
                 _safe_repr(getattr(info, "default", None)),
                 extra_snapshot,
+                getattr(info, "description", None) or "",
+                getattr(info, "default_factory", None) is not None,
+                bool(validators_map.get(name, False)),
+                repr(_extract_enum_info(getattr(info, "annotation", None))),
+                _nested_fingerprint(info, _parents + (model_cls,)),
             )
         )
     raw = json.dumps(sorted(parts), separators=(",", ":"), ensure_ascii=False)
-- 
2.43.0


From aaae4681a1b2a3832452f355cd64f445cf755cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 22/63] fix: field cache ignores damaged files and an unusable
 cache directory

---
 mt_metadata/base/pydantic_helpers.py | 40 +++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index a936971..5af4cdc 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -855,18 +855,43 @@ def _load_fields_from_disk(model_cls: type[BaseModel]) -> Dict[str, Any] | None:
 
     Notes
     -----
-    - Returns None on any read/parse error.
+    - Returns None on any read/parse error, or if the content is not what was
+      written.
     """
-    path = _disk_cache_path(model_cls)
-    if not os.path.exists(path):
-        return None
     try:
+        path = _disk_cache_path(model_cls)
+        if not os.path.exists(path):
+            return None
         with open(path, "r", encoding="utf-8") as f:
-            return json.load(f)
+            content = json.load(f)
+        tree = content["tree"]
+        if content["checksum"] != _tree_checksum(path, tree):
+            return None
+        return tree
     except Exception:
         return None
 
 
+def _tree_checksum(path: str, tree: Dict[str, Any]) -> str:
+    """
+    Checksum of a serialized field tree, to recognize a damaged cache file.
+
+    Parameters
+    ----------
+    path : str
+        Cache file, its name holds the class and fingerprint the tree is for.
+    tree : Dict[str, Any]
+        The serialized field tree.
+
+    Returns
+    -------
+    str
+        A SHA-256 hex digest.
+    """
+    raw = json.dumps([os.path.basename(path), tree], sort_keys=True)
+    return hashlib.sha256(raw.encode("utf-8")).hexdigest()
+
+
 def _save_fields_to_disk(model_cls: type[BaseModel], tree: Dict[str, Any]) -> None:
     """
     Persist a serialized field tree to disk cache.
@@ -886,10 +911,11 @@ def _save_fields_to_disk(model_cls: type[BaseModel], tree: Dict[str, Any]) -> No
     -----
     - Overwrites any existing file for the same model fingerprint.
     """
-    path = _disk_cache_path(model_cls)
     try:
+        path = _disk_cache_path(model_cls)
+        content = {"checksum": _tree_checksum(path, tree), "tree": tree}
         with open(path, "w", encoding="utf-8") as f:
-            json.dump(tree, f, indent=2, ensure_ascii=False)
+            json.dump(content, f, indent=2, ensure_ascii=False)
     except Exception:
         # Best-effort caching; ignore write errors
         pass
-- 
2.43.0


From 87366a07f75223b520e776392f78e961e86edb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 23/63] fix: a time is not greater than itself

---
 mt_metadata/common/mttime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index 552d8de..4e9abd4 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -707,7 +707,10 @@ class MTime(BaseModel):
         bool
             True if other is greater than the current time stamp, otherwise False
         """
-        return not self.__lt__(other)
+        if not isinstance(other, MTime):
+            other = MTime(time_stamp=other)
+
+        return bool(self.time_stamp > other.time_stamp)
 
     def __ge__(
         self,
-- 
2.43.0


From 8ff74f632b5022afb88ba0f936ea47042eeac7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 24/63] fix: convert times given with an offset to UTC

---
 mt_metadata/common/mttime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index 4e9abd4..e9bcd65 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -161,9 +161,9 @@ def _localize_utc(stamp: pd.Timestamp) -> pd.Timestamp:
 
     # check time zone and enforce UTC
     if stamp.tz is None:
-        stamp = stamp.tz_localize("UTC").tz_convert("UTC")
+        stamp = stamp.tz_localize("UTC")
 
-    return stamp
+    return stamp.tz_convert("UTC")
 
 
 # minimum and maximum time stamps for pandas
-- 
2.43.0


From f1b0c6f727a62aec9e5f89356f77045559b88ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 25/63] fix: nanosecond times keep their nanoseconds

---
 mt_metadata/common/mttime.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index e9bcd65..0b6e97a 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -346,6 +346,8 @@ def parse(
     - All outputs are forced to UTC timezone regardless of input timezone
     """
     t_min_max = False
+    # numpy datetimes are commonly computed from floats
+    from_float = isinstance(dt_str, np.datetime64)
     if dt_str in [None, "", "none", "None", "NONE", "Na", {}]:
         logger.debug("Time string is None, setting to 1980-01-01:00:00:00")
         stamp = pd.Timestamp("1980-01-01T00:00:00+00:00", tz="UTC")
@@ -355,8 +357,11 @@ def parse(
 
     elif isinstance(dt_str, (float, int, np.number)):
         # Convert numpy numbers to standard Python float/int for consistent handling
-        if isinstance(dt_str, np.number):
+        if isinstance(dt_str, np.integer):
+            dt_str = int(dt_str)
+        elif isinstance(dt_str, np.number):
             dt_str = float(dt_str)
+        from_float = isinstance(dt_str, float)
 
         # using 3E8 which is about the start of GPS time
         ratio = dt_str / 3e8
@@ -364,13 +369,17 @@ def parse(
             raise ValueError(
                 "Input is before GPS start time '1980/01/06', check value."
             )
-        elif ratio > 1e3:
-            dt_str = dt_str / 1e9
-            logger.debug(
-                "Assuming input float/int is in nanoseconds, converting to seconds."
-            )
-        # need to use utcfromtimestamp to avoid local time zone issues
-        t_min_max, stamp = _check_timestamp(pd.Timestamp.utcfromtimestamp(dt_str))
+        if ratio > 1e3 and isinstance(dt_str, int) and dt_str < TMAX.value:
+            # integer nanoseconds are exact
+            t_min_max, stamp = _check_timestamp(pd.Timestamp(dt_str, unit="ns"))
+        else:
+            if ratio > 1e3:
+                dt_str = dt_str / 1e9
+                logger.debug(
+                    "Assuming input float/int is in nanoseconds, converting to seconds."
+                )
+            # need to use utcfromtimestamp to avoid local time zone issues
+            t_min_max, stamp = _check_timestamp(pd.Timestamp.utcfromtimestamp(dt_str))
 
     elif hasattr(dt_str, "isoformat"):
         try:
@@ -397,9 +406,9 @@ def parse(
     # check time zone and enforce UTC
     stamp = _localize_utc(stamp)
 
-    # there can be a machine round off error, if it is close to 1 round to
-    # microseconds
-    if round(stamp.nanosecond / 1000) == 1 and not t_min_max:
+    # there can be a machine round off error in a float, if it is close to 1
+    # round to microseconds
+    if from_float and round(stamp.nanosecond / 1000) == 1 and not t_min_max:
         stamp = stamp.round(freq="us")
 
     if gps_time:
-- 
2.43.0


From abdb7c3a69c4fbb069b2b7d7f86564faf97d0ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 26/63] fix: read 24:00 after a space or with an offset

---
 mt_metadata/common/mttime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index 0b6e97a..ba183ee 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -9,6 +9,7 @@ have a look at https://github.com/pydantic/pydantic/discussions/3673.
 """
 
 import datetime
+import re
 
 # =============================================================================
 # IMPORTS
@@ -207,7 +208,7 @@ def _parse_string(dt_str: str) -> datetime.datetime:
         error_24h = "hour must be in 0..23"
         if error_24h in ve.args[0]:
             # hh=24 was supplied -- this is legal if it is midnight
-            one_hour_earlier_dt_str = dt_str.replace("T24", "T23")
+            one_hour_earlier_dt_str = re.sub(r"(T| (?=24:))24", r"\g<1>23", dt_str)
             one_hour_earlier_result = dtparser(one_hour_earlier_dt_str)
             result = one_hour_earlier_result + datetime.timedelta(hours=1)
             return result
@@ -260,7 +261,7 @@ def _fix_out_of_bounds_time_stamp(dt):
         stamp = TMIN
         t_min_max = True
     else:
-        stamp = pd.Timestamp(dt, tz="UTC")
+        stamp = _localize_utc(pd.Timestamp(dt))
 
     return stamp, t_min_max
 
-- 
2.43.0


From 2f37f9e566058a82308e51b6b896321c5989fc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 27/63] fix: MTime.from_dict reads the value it is given

---
 mt_metadata/common/mttime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index ba183ee..3a0a2b3 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -846,7 +846,7 @@ class MTime(BaseModel):
         value : str | int | float | np.datetime64 | pd.Timestamp
             time stamp value
         """
-        self.time_stamp = value
+        self.time_stamp = parse(value, gps_time=self.gps_time)
 
     @property
     def iso_str(self) -> str:
@@ -1278,4 +1278,4 @@ class MDate(MTime):
         value : str | int | float | np.datetime64 | pd.Timestamp
             time stamp value
         """
-        self.time_stamp = value
+        self.time_stamp = parse(value, gps_time=self.gps_time)
-- 
2.43.0


From fc3fbf8ec8b882f15b2c4e6bcfdc88f0fcca3835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 28/63] fix: leap seconds on 2012-06-30 and 2016-12-31

---
 mt_metadata/common/mttime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index 3a0a2b3..055e5a6 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -58,9 +58,9 @@ leap_second_dict = {
     12: {"min": datetime.date(1997, 7, 1), "max": datetime.date(1999, 1, 1)},
     13: {"min": datetime.date(1999, 1, 1), "max": datetime.date(2006, 1, 1)},
     14: {"min": datetime.date(2006, 1, 1), "max": datetime.date(2009, 1, 1)},
-    15: {"min": datetime.date(2009, 1, 1), "max": datetime.date(2012, 6, 30)},
+    15: {"min": datetime.date(2009, 1, 1), "max": datetime.date(2012, 7, 1)},
     16: {"min": datetime.date(2012, 7, 1), "max": datetime.date(2015, 7, 1)},
-    17: {"min": datetime.date(2015, 7, 1), "max": datetime.date(2016, 12, 31)},
+    17: {"min": datetime.date(2015, 7, 1), "max": datetime.date(2017, 1, 1)},
     18: {"min": datetime.date(2017, 1, 1), "max": datetime.date(2026, 7, 1)},
 }
 
-- 
2.43.0


From 22b7528d5327b1efcbb0b8d2b8625e3a3cfc37ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 29/63] fix: positions between 0 and -1 degrees keep their sign
 in DD:MM:SS

---
 mt_metadata/utils/location_helpers.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/utils/location_helpers.py b/mt_metadata/utils/location_helpers.py
index 6bf886b..b18ee5e 100644
--- a/mt_metadata/utils/location_helpers.py
+++ b/mt_metadata/utils/location_helpers.py
@@ -26,12 +26,10 @@ def convert_position_float2str(position: float | int) -> str:
         logger.error(msg)
         raise TypeError(msg)
 
-    deg = int(position)
-    sign = 1
-    if deg < 0:
-        sign = -1
+    # the degrees can be 0, need to keep the sign separate
+    sign = "-" if position < 0 else ""
 
-    deg = abs(deg)
+    deg = abs(int(position))
     minutes = (abs(position) - deg) * 60.0
     # need to round seconds to 4 decimal places otherwise machine precision
     # keeps the 60 second roll over and the string is incorrect.
@@ -44,7 +42,7 @@ def convert_position_float2str(position: float | int) -> str:
         deg += 1
         minutes = 0
 
-    position_str = f"{sign * int(deg)}:{int(minutes):02.0f}:{sec:05.6f}"
+    position_str = f"{sign}{int(deg)}:{int(minutes):02.0f}:{sec:05.6f}"
     logger.debug(f"Converted {position} to {position_str}")
 
     return position_str
@@ -92,7 +90,7 @@ def convert_position_str2float(position_str: str) -> float:
     # get the sign of the position so that when all are added together the
     # position is in the correct place
     sign = 1
-    if deg < 0:
+    if p_list[0].strip().startswith("-"):
         sign = -1
 
     position_value = sign * (abs(deg) + minutes / 60.0 + sec / 3600.0)
-- 
2.43.0


From 556afcf7e42a3017ebda9b11153b425101a205bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 30/63] fix: spaces around the / of a unit do not make it a
 product

---
 mt_metadata/common/units.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/common/units.py b/mt_metadata/common/units.py
index fd43835..ef6ef67 100644
--- a/mt_metadata/common/units.py
+++ b/mt_metadata/common/units.py
@@ -9,6 +9,7 @@ case strings.
 
 """
 
+import re
 from collections import OrderedDict
 from typing import Annotated
 
@@ -309,6 +310,8 @@ def parse_unit_string(unit_string: str) -> list[dict] | None:
     if not isinstance(unit_string, str):
         raise TypeError("The unit_string must be a string.")
     unit_string = unit_string.replace("[", "").replace("]", "")
+    # spaces around a ratio or repeated spaces are not products
+    unit_string = re.sub(r"\s*/\s*", "/", " ".join(unit_string.split()))
     result = []
     separator = ""
     while separator != None:
-- 
2.43.0


From 257ab8846cb3b0dec2128ce8b6920516df1b65a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 31/63] fix: digital counts inside a unit expression stays one
 unit

---
 mt_metadata/common/units.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/common/units.py b/mt_metadata/common/units.py
index ef6ef67..02c3e6b 100644
--- a/mt_metadata/common/units.py
+++ b/mt_metadata/common/units.py
@@ -312,6 +312,8 @@ def parse_unit_string(unit_string: str) -> list[dict] | None:
     unit_string = unit_string.replace("[", "").replace("]", "")
     # spaces around a ratio or repeated spaces are not products
     unit_string = re.sub(r"\s*/\s*", "/", " ".join(unit_string.split()))
+    # the only unit with a space in its name, found in any case
+    unit_string = re.sub(r"\b(digital )?counts?\b", "counts", unit_string, flags=re.I)
     result = []
     separator = ""
     while separator != None:
-- 
2.43.0


From 121781094fbb77966b1b1dda22eb611aa98c526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 32/63] fix: read the empty run and channel lists of a station
 from XML

---
 mt_metadata/timeseries/station.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index ff04a64..4a666e5 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -239,12 +239,12 @@ class Station(MetadataBase):
         """
         Validate that the value is a list of strings.
         """
-        if value in NULL_VALUES:
-            return
-
         if isinstance(value, np.ndarray):
             value = value.astype(str).tolist()
 
+        elif value in NULL_VALUES:
+            return []
+
         elif isinstance(value, (list, tuple)):
             value = [str(v) for v in value]
 
-- 
2.43.0


From bd8e63fe8f5b0cce7bb0976e1956d908456e7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 33/63] fix: export numeric arrays that hold a zero

---
 mt_metadata/base/metadata.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index d29dc6b..a7b47ba 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1153,10 +1153,7 @@ class MetadataBase(DotNotationBaseModel):
                 value = None
             if required:
                 if isinstance(value, (np.ndarray)):
-                    if name == "zeros" or name == "poles":
-                        meta_dict[name] = value
-                    elif value.all() != 0:
-                        meta_dict[name] = value
+                    meta_dict[name] = value
                 elif hasattr(value, "size"):
                     if value.size > 0:
                         meta_dict[name] = value
-- 
2.43.0


From 008893b46926ea70a7b9061fa53490b1a30963c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 34/63] fix: the symbol of a bare count stays count

---
 mt_metadata/common/units.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/common/units.py b/mt_metadata/common/units.py
index 02c3e6b..5195573 100644
--- a/mt_metadata/common/units.py
+++ b/mt_metadata/common/units.py
@@ -313,7 +313,10 @@ def parse_unit_string(unit_string: str) -> list[dict] | None:
     # spaces around a ratio or repeated spaces are not products
     unit_string = re.sub(r"\s*/\s*", "/", " ".join(unit_string.split()))
     # the only unit with a space in its name, found in any case
-    unit_string = re.sub(r"\b(digital )?counts?\b", "counts", unit_string, flags=re.I)
+    unit_string = re.sub(
+        r"\b(digital counts?|counts)\b", "counts", unit_string, flags=re.I
+    )
+    unit_string = re.sub(r"\bcount\b", "count", unit_string, flags=re.I)
     result = []
     separator = ""
     while separator != None:
-- 
2.43.0


From 1a53e562bd484d683e46af62c9b425219086dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 35/63] fix: a Zonge header elevation of None is zero when
 assigned too

---
 mt_metadata/transfer_functions/io/zonge/metadata/header.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/zonge/metadata/header.py b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
index a2ab933..149f186 100644
--- a/mt_metadata/transfer_functions/io/zonge/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
@@ -489,6 +489,8 @@ class Header(MetadataBase):
 
         # Setter for elevation
         if name == "elevation":
+            if value is None:
+                value = 0.0
             if isinstance(value, str):
                 try:
                     value = float(value.strip())
-- 
2.43.0


From 4f0a3e73a9fca1d3e5082cf9d68331b0ec0125a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 36/63] fix: ListDict.pop removes the key it is given

---
 mt_metadata/common/list_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/common/list_dict.py b/mt_metadata/common/list_dict.py
index 0ba55c1..d4aa581 100644
--- a/mt_metadata/common/list_dict.py
+++ b/mt_metadata/common/list_dict.py
@@ -297,7 +297,7 @@ class ListDict:
         """
 
         if key in self.keys():
-            return dict([self._home.popitem(key)])
+            return {key: self._home.pop(key)}
         else:
             raise KeyError(f"{key} is not in ListDict keys.")
 
-- 
2.43.0


From 6724ffb8e71f632a7ed9a81ba02b8284ec92f1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:30 +0000
Subject: [PATCH 37/63] fix: ListDict appends under a free key and compares
 with other types

---
 mt_metadata/common/list_dict.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/common/list_dict.py b/mt_metadata/common/list_dict.py
index d4aa581..09306f3 100644
--- a/mt_metadata/common/list_dict.py
+++ b/mt_metadata/common/list_dict.py
@@ -50,6 +50,8 @@ class ListDict:
         return f"ListDict({items_str})"
 
     def __eq__(self, other):
+        if not isinstance(other, ListDict):
+            return False
         return self._home.__eq__(other._home)
 
     def __len__(self):
@@ -207,7 +209,11 @@ class ListDict:
         try:
             key = self._get_key_from_object(obj)
         except TypeError:
-            key = str(len(self.keys()))
+            # the position, or the next number that is free after a removal
+            index = len(self._home)
+            while str(index) in self._home:
+                index += 1
+            key = str(index)
 
         self._home[key] = obj
 
-- 
2.43.0


From 0285ec755cbd03566bcfb3d9b8b968291780888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 38/63] fix: recorded lists of a run or station describe its
 children

---
 mt_metadata/timeseries/run.py     | 102 ++++++++++++++++++++----------
 mt_metadata/timeseries/station.py |  43 ++++++++++++-
 2 files changed, 110 insertions(+), 35 deletions(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 77867e7..4fdb7ab 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -4,7 +4,7 @@
 from __future__ import annotations
 
 from collections import OrderedDict
-from typing import Annotated
+from typing import Annotated, Any, ClassVar
 
 import numpy as np
 from loguru import logger
@@ -33,6 +33,12 @@ from mt_metadata.timeseries import Auxiliary, DataLogger, Electric, Magnetic
 
 
 class Run(MetadataBase):
+    _recorded_lists: ClassVar[tuple[str, ...]] = (
+        "channels_recorded_auxiliary",
+        "channels_recorded_electric",
+        "channels_recorded_magnetic",
+    )
+
     channels_recorded_auxiliary: Annotated[
         list[str],
         Field(
@@ -302,19 +308,54 @@ class Run(MetadataBase):
         """
         Validate that the value is a list of strings.
         """
-        # need to make each another object list() otherwise the contents
-        # get overwritten with the new channel.
-        for electric in list(self.channels_recorded_electric):
-            if electric not in self.channels.keys():
-                self.add_channel(Electric(component=electric))  # type: ignore
-        for magnetic in list(self.channels_recorded_magnetic):
-            if magnetic not in self.channels.keys():
-                self.add_channel(Magnetic(component=magnetic))  # type: ignore
-        for auxiliary in list(self.channels_recorded_auxiliary):
-            if auxiliary not in self.channels.keys():
-                self.add_channel(Auxiliary(component=auxiliary))  # type: ignore
+        # collect all the names first, adding a channel rewrites the lists
+        recorded = [
+            (channel_class, component)
+            for channel_class, names in (
+                (Electric, self.channels_recorded_electric),
+                (Magnetic, self.channels_recorded_magnetic),
+                (Auxiliary, self.channels_recorded_auxiliary),
+            )
+            for component in names
+        ]
+        for channel_class, component in recorded:
+            if component in self.channels.keys() or self.has_channel(component):
+                continue
+            self.add_channel(channel_class(component=component))  # type: ignore
         return self
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        """
+        The channels recorded lists describe the channels, a list adds channels
+        only when it is the attribute that is set. If the value is rejected the
+        run is left as it was.
+        """
+        if name not in type(self).model_fields or not isinstance(
+            self.__dict__.get("channels"), ListDict
+        ):
+            super().__setattr__(name, value)
+            return
+
+        saved = dict(self.__dict__)
+        saved_lists = {key: list(saved[key]) for key in self._recorded_lists}
+        saved_channels = list(self.channels.items())
+        described = self._get_channels_recorded_lists()
+        for key in self._recorded_lists:
+            if name == "channels":
+                saved[key].clear()
+            elif name not in self._recorded_lists or key != name:
+                self.__dict__[key] = described[key]
+        try:
+            super().__setattr__(name, value)
+        except Exception:
+            self.__dict__.update(saved)
+            for key, names in saved_lists.items():
+                self.__dict__[key][:] = names
+            self.channels.clear()
+            self.channels.update(OrderedDict(saved_channels))
+            raise
+        self.__dict__.update(self._get_channels_recorded_lists())
+
     @field_validator("channels", mode="before")
     @classmethod
     def validate_channels(cls, value, info: ValidationInfo) -> ListDict:
@@ -348,6 +389,22 @@ class Run(MetadataBase):
 
         return channels
 
+    def _get_channels_recorded_lists(self) -> dict[str, list[str]]:
+        """
+        Names of the current channels for each of the channels recorded lists.
+        """
+        lists = {key: [] for key in self._recorded_lists}
+        for ch in self.channels:
+            if isinstance(ch, Electric):
+                key, default = "channels_recorded_electric", "e_default"
+            elif isinstance(ch, Magnetic):
+                key, default = "channels_recorded_magnetic", "h_default"
+            else:
+                key, default = "channels_recorded_auxiliary", "auxiliary_default"
+            if ch.component not in [None, default]:
+                lists[key].append(ch.component)
+        return {key: sorted(names) for key, names in lists.items()}
+
     def _empty_channels_recorded(self) -> None:
         """
         Clear all channels recorded lists.
@@ -396,26 +453,7 @@ class Run(MetadataBase):
         ['hx']
 
         """
-        self._empty_channels_recorded()
-        aux_components = [
-            ch.component
-            for ch in self.channels
-            if isinstance(ch, Auxiliary)
-            and ch.component not in [None, "auxiliary_default"]
-        ]
-        elec_components = [
-            ch.component
-            for ch in self.channels
-            if isinstance(ch, Electric) and ch.component not in [None, "e_default"]
-        ]
-        mag_components = [
-            ch.component
-            for ch in self.channels
-            if isinstance(ch, Magnetic) and ch.component not in [None, "h_default"]
-        ]
-        self.channels_recorded_auxiliary = sorted(aux_components)
-        self.channels_recorded_electric = sorted(elec_components)
-        self.channels_recorded_magnetic = sorted(mag_components)
+        self.__dict__.update(self._get_channels_recorded_lists())
 
     # def __len__(self):
     #     return len(self.channels)
diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index 4a666e5..a527b01 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -2,7 +2,7 @@
 # Imports
 # =====================================================
 from collections import OrderedDict
-from typing import Annotated
+from typing import Annotated, Any
 
 import numpy as np
 from loguru import logger
@@ -268,7 +268,7 @@ class Station(MetadataBase):
         # get overwritten with the new channel.
         if self.run_list != list(self.runs.keys()):
             if len(self.run_list) > len(self.runs.keys()):
-                for run_id in self.run_list:
+                for run_id in list(self.run_list):
                     if run_id not in self.runs.keys():
                         self.runs.append(Run(id=run_id))
             else:
@@ -277,13 +277,50 @@ class Station(MetadataBase):
         if self.channels_recorded != estimate_channels_recorded:
             if len(self.channels_recorded) > len(estimate_channels_recorded):
                 if len(self.runs) > 0:
-                    for channel in self.channels_recorded:
+                    for channel in list(self.channels_recorded):
                         if channel not in estimate_channels_recorded:
                             self.runs[0].add_channel(channel)
             else:
                 self.update_channels_recorded()
         return self
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        """
+        The run list and channels recorded describe the runs, they add runs or
+        channels only when they are the attribute that is set. If the value is
+        rejected the station is left as it was.
+        """
+        if name not in type(self).model_fields or not isinstance(
+            self.__dict__.get("runs"), ListDict
+        ):
+            super().__setattr__(name, value)
+            return
+
+        saved = dict(self.__dict__)
+        saved_lists = {
+            key: list(saved[key]) for key in ("run_list", "channels_recorded")
+        }
+        saved_runs = list(self.runs.items())
+        if name == "runs":
+            self.__dict__.update(run_list=[], channels_recorded=[])
+        elif saved_runs:
+            if name != "run_list":
+                self.__dict__["run_list"] = self.runs.keys()
+            if name != "channels_recorded":
+                self.__dict__["channels_recorded"] = self._get_channels_recorded()
+        try:
+            super().__setattr__(name, value)
+        except Exception:
+            self.__dict__.update(saved)
+            for key, names in saved_lists.items():
+                self.__dict__[key][:] = names
+            self.runs.clear()
+            self.runs.update(OrderedDict(saved_runs))
+            raise
+        if len(self.runs) > 0:
+            self.__dict__["run_list"] = self.runs.keys()
+            self.__dict__["channels_recorded"] = self._get_channels_recorded()
+
     @model_validator(mode="after")
     def validate_station_id(self) -> Self:
         """
-- 
2.43.0


From 075fcecf8c67b76126ad3c011afaa18b459070f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 39/63] fix: station and run collections after removing,
 renaming, sorting and merging

---
 mt_metadata/timeseries/experiment.py |  2 +-
 mt_metadata/timeseries/run.py        | 15 ++++++++-------
 mt_metadata/timeseries/station.py    | 23 +++++++++++------------
 mt_metadata/timeseries/survey.py     |  6 +++---
 4 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index ca3d5a9..0826f79 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -107,7 +107,7 @@ class Experiment(MetadataBase):
         Merge two Experiment objects
         """
         if isinstance(other, Experiment):
-            self.surveys.extend(other.surveys)
+            self.surveys.extend(other.surveys.copy())
 
             return self
         else:
diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 4fdb7ab..2f0a6c6 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -507,11 +507,10 @@ class Run(MetadataBase):
 
         """
         if isinstance(other, Run):
-            self.channels.extend(other.channels)
+            self.channels.extend(other.channels.copy())
             self._update_channels_recorded()
-            if inplace:
-                self.update_time_period()
-            else:
+            self.update_time_period()
+            if not inplace:
                 return self.copy()
         else:
             msg = f"Can only merge Run objects, not {type(other)}"
@@ -609,7 +608,7 @@ class Run(MetadataBase):
         ## and it initiates an empty channel, but we need to fill it with
         ## the appropriate metadata.
         for ch in other.channels:
-            self.add_channel(ch)
+            self.add_channel(ch.copy())
 
     def has_channel(self, component: str) -> bool:
         """
@@ -920,7 +919,9 @@ class Run(MetadataBase):
         get_channel : Access channels by component
 
         """
-        return self.channels.update_keys()
+        updates = self.channels.update_keys()
+        self._update_channels_recorded()
+        return updates
 
     @property
     def n_channels(self) -> int:
@@ -1112,7 +1113,7 @@ class Run(MetadataBase):
                 if ch_type.lower().startswith("e"):
                     return Electric(**channel_obj)
                 elif (
-                    ch_type.lower().startswith("b")
+                    ch_type.lower().startswith("h")
                     or ch_type.lower().startswith("b")
                     or ch_type.lower() in ["magnetic"]
                 ):
diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index a527b01..81c7a0e 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -375,7 +375,7 @@ class Station(MetadataBase):
 
     def merge(self, other, inplace=False):
         if isinstance(other, Station):
-            self.runs.extend(other.runs)
+            self.runs.extend(other.runs.copy())
             self.update_all()
             if not inplace:
                 return self
@@ -549,6 +549,7 @@ class Station(MetadataBase):
         if self.has_run(run_id):
             self.runs.remove(run_id)
             if update:
+                self._empty_channels_recorded()
                 self.update_all()
         else:
             logger.warning(f"Could not find {run_id} to remove.")
@@ -574,7 +575,9 @@ class Station(MetadataBase):
             >>> print(key_mapping)  # {'': '001'}
             >>> # Now run can be accessed as station.runs['001']
         """
-        return self.runs.update_keys()
+        updates = self.runs.update_keys()
+        self.update_run_list()
+        return updates
 
     def sort_runs_by_time(self, inplace=True, ascending=True):
         """
@@ -588,17 +591,13 @@ class Station(MetadataBase):
 
         """
 
-        run_ids = []
-        run_starts = []
-        for run_key, run_obj in self.runs.items():
-            run_ids.append(run_key)
-            run_starts.append(run_obj.time_period.start.split("+")[0])
-
-        index = np.argsort(np.array(run_starts, dtype=np.datetime64))
-
         new_runs = ListDict()
-        for ii in index:
-            new_runs[run_ids[ii]] = self.runs[run_ids[ii]]
+        for run_key, run_obj in sorted(
+            self.runs.items(),
+            key=lambda item: item[1].time_period.start,
+            reverse=not ascending,
+        ):
+            new_runs[run_key] = run_obj
 
         if inplace:
             self.runs = new_runs
diff --git a/mt_metadata/timeseries/survey.py b/mt_metadata/timeseries/survey.py
index 2c4c381..ba916c0 100644
--- a/mt_metadata/timeseries/survey.py
+++ b/mt_metadata/timeseries/survey.py
@@ -455,11 +455,11 @@ class Survey(MetadataBase):
                             f = PoleZeroFilter()
                         elif f_type.lower() in ["coefficient"]:
                             f = CoefficientFilter()
-                        elif f_type.lower() in ["time delay"]:
+                        elif f_type.lower() in ["time_delay", "time delay"]:
                             f = TimeDelayFilter()
                         elif f_type.lower() in ["fir"]:
                             f = FIRFilter()
-                        elif f_type.lower() in ["frequency response table"]:
+                        elif f_type.lower() in ["fap", "frequency response table"]:
                             f = FrequencyResponseTableFilter()
                         else:
                             msg = f"filter type {f_type} not supported."
@@ -552,7 +552,7 @@ class Survey(MetadataBase):
             If items cannot be merged.
         """
         if isinstance(other, Survey):
-            self.stations.extend(other.stations)
+            self.stations.extend(other.stations.copy())
             self.update_all()
             if not inplace:
                 return self
-- 
2.43.0


From b69325bfc37a9b2792c0ec285136d64af3b6145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:08 +0000
Subject: [PATCH 40/63] fix: updating a station, run or survey takes in the
 children of the other

---
 mt_metadata/timeseries/experiment.py |  8 +++++++-
 mt_metadata/timeseries/run.py        |  1 +
 mt_metadata/timeseries/station.py    | 21 +++++++++++++++++++++
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 0826f79..f372e99 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -207,7 +207,13 @@ class Experiment(MetadataBase):
             )
 
         if self.has_survey(survey_obj.id):
-            self.surveys[survey_obj.id].update(survey_obj)
+            survey = self.surveys[survey_obj.id]
+            survey.update(survey_obj)
+            for station in survey_obj.stations:
+                survey.add_station(station.copy(), update=False)
+            for name, survey_filter in survey_obj.filters.items():
+                survey.filters[name] = survey_filter.copy()
+            survey.update_all()
             logger.debug(f"survey {survey_obj.id} already exists, updating metadata")
         else:
             self.surveys.append(survey_obj)
diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 2f0a6c6..ba59d79 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -609,6 +609,7 @@ class Run(MetadataBase):
         ## the appropriate metadata.
         for ch in other.channels:
             self.add_channel(ch.copy())
+        self.update_time_period()
 
     def has_channel(self, component: str) -> bool:
         """
diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index 81c7a0e..bb97aa3 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -373,6 +373,27 @@ class Station(MetadataBase):
 
         return runs
 
+    def update(self, other, match=[]):
+        """
+        Update attribute values from another station, including its runs.
+
+        Parameters
+        ----------
+        other : Station
+            Station to update from.
+        match : list of str, optional
+            Attributes that must be equal in both, by default [].
+
+        """
+        if isinstance(other, Station) and all(
+            self.get_attr_from_name(k) == other.get_attr_from_name(k) for k in match
+        ):
+            for run in other.runs:
+                self.add_run(run.copy(), update=False)
+            self.update_run_list()
+        super().update(other, match=match)
+        self.update_all()
+
     def merge(self, other, inplace=False):
         if isinstance(other, Station):
             self.runs.extend(other.runs.copy())
-- 
2.43.0


From e347bfa024c78476dd3bd2c288523d6d6b72cc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 41/63] fix: a run or station update or failed list adds no
 stray channels

---
 mt_metadata/timeseries/run.py     | 11 +++++------
 mt_metadata/timeseries/station.py | 11 ++++++++---
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index ba59d79..1223e1b 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -596,19 +596,18 @@ class Run(MetadataBase):
                 )
                 logger.error(msg)
                 raise ValueError(msg)
+        # the channels first: the recorded lists only describe them
+        for ch in other.channels:
+            self.add_channel(ch.copy())
         for k, v in other.to_dict(single=True).items():
+            if k in self._recorded_lists:
+                continue
             if hasattr(v, "size"):
                 if v.size > 0:
                     self.update_attribute(k, v)
             else:
                 if v not in [None, 0.0, [], "", "1980-01-01T00:00:00+00:00"]:
                     self.update_attribute(k, v)
-
-        ## Need this because channels are set when setting channels_recorded
-        ## and it initiates an empty channel, but we need to fill it with
-        ## the appropriate metadata.
-        for ch in other.channels:
-            self.add_channel(ch.copy())
         self.update_time_period()
 
     def has_channel(self, component: str) -> bool:
diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index bb97aa3..5bc8a0d 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -277,9 +277,14 @@ class Station(MetadataBase):
         if self.channels_recorded != estimate_channels_recorded:
             if len(self.channels_recorded) > len(estimate_channels_recorded):
                 if len(self.runs) > 0:
-                    for channel in list(self.channels_recorded):
-                        if channel not in estimate_channels_recorded:
-                            self.runs[0].add_channel(channel)
+                    # make all of them before adding any, one may be invalid
+                    new_channels = [
+                        Run._get_correct_channel_type(channel)
+                        for channel in self.channels_recorded
+                        if channel not in estimate_channels_recorded
+                    ]
+                    for channel in new_channels:
+                        self.runs[0].add_channel(channel)
             else:
                 self.update_channels_recorded()
         return self
-- 
2.43.0


From f8b2c1921ed7b122ab2adc99a8a77719afabcc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 42/63] fix: text "1980" is not left out of exports

---
 mt_metadata/base/metadata.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index a7b47ba..1cb4f80 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1063,7 +1063,6 @@ class MetadataBase(DotNotationBaseModel):
                                 if comment_obj.value not in [
                                     None,
                                     "1980-01-01T00:00:00+00:00",
-                                    "1980",
                                     [],
                                     "",
                                 ]:
@@ -1158,7 +1157,7 @@ class MetadataBase(DotNotationBaseModel):
                     if value.size > 0:
                         meta_dict[name] = value
                 elif (
-                    value not in [None, "1980-01-01T00:00:00+00:00", "1980", [], ""]
+                    value not in [None, "1980-01-01T00:00:00+00:00", [], ""]
                     or name in self._required_fields
                     or helpers._should_include_coordinate_field(name)
                     or helpers._should_convert_none_to_empty_string(name)
-- 
2.43.0


From 02ab054f40d0c006a182283fbed5d7942155014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 43/63] fix: to_dict leaves the object's own dictionaries alone

---
 mt_metadata/base/metadata.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 1cb4f80..472c7cc 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1124,13 +1124,16 @@ class MetadataBase(DotNotationBaseModel):
                 elif hasattr(value, "to_dict"):
                     value = value.to_dict(nested=nested, required=required)
                 elif isinstance(value, dict):
+                    # a new dictionary, the one of the object must not change
+                    v_dict = type(value)()
                     for key, obj in value.items():
                         if hasattr(obj, "to_dict"):
-                            value[key] = obj.to_dict(nested=nested, required=required)
+                            v_dict[key] = obj.to_dict(nested=nested, required=required)
                         elif isinstance(obj, Enum):
-                            value[key] = obj.value
+                            v_dict[key] = obj.value
                         else:
-                            value[key] = obj
+                            v_dict[key] = obj
+                    value = v_dict
                 elif isinstance(value, list):
                     v_list = []
                     for obj in value:
-- 
2.43.0


From d0963f4ec7981f15641a88f983160771da4d86e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 44/63] fix: experiments with childless surveys, stations or
 runs survive XML

---
 mt_metadata/timeseries/experiment.py | 50 ++++++++++++++++++----------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index f372e99..939ffe3 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -393,7 +393,7 @@ class Experiment(MetadataBase):
         for survey in self.surveys:
             survey.update_bounding_box()
             survey.update_time_period()
-            survey_element = survey.to_xml(required=required)
+            survey_element = self._to_parent_element(survey, required)
             filter_element = et.SubElement(survey_element, "filters")
             for key, value in survey.filters.items():
                 filter_element.append(value.to_xml(required=required))
@@ -401,12 +401,13 @@ class Experiment(MetadataBase):
                 survey.stations.sort()
             for station in survey.stations:
                 station.update_time_period()
-                station_element = station.to_xml(required=required)
                 if sort:
                     station.runs.sort()
+                    station.update_run_list()
+                station_element = self._to_parent_element(station, required)
                 for run in station.runs:
                     run.update_time_period()
-                    run_element = run.to_xml(required=required)
+                    run_element = self._to_parent_element(run, required)
                     if sort:
                         run.channels.sort()
                     for channel in run.channels:
@@ -439,6 +440,19 @@ class Experiment(MetadataBase):
                 fid.write(helpers.element_to_string(experiment_element))
         return experiment_element
 
+    def _to_parent_element(
+        self, parent: Survey | Station | Run, required: bool
+    ) -> et.Element:
+        """
+        XML element of a survey, station or run without the (empty) elements of
+        the collections, those are added one child at a time.
+        """
+        element = parent.to_xml(required=required)
+        for name in ["filters", "stations", "runs", "channels"]:
+            for child in element.findall(name):
+                element.remove(child)
+        return element
+
     def from_xml(
         self,
         fn: str | Path = None,
@@ -468,7 +482,7 @@ class Experiment(MetadataBase):
             survey_dict = helpers.element_to_dict(survey_element)
             stations = self._pop_dictionary(survey_dict["survey"], "station")
             # the filters are read on their own, they are keyed by type here
-            fd = survey_dict["survey"].pop("filters")
+            fd = survey_dict["survey"].pop("filters", None)
             survey_obj = Survey()
             survey_obj.from_dict(survey_dict, skip_none=skip_none)
             filter_dict = self._read_filter_dict(fd)
@@ -477,23 +491,24 @@ class Experiment(MetadataBase):
             for station_dict in stations:
                 station_obj = Station()
                 runs = self._pop_dictionary(station_dict, "run")
+                if runs:
+                    # the lists describe the runs, which are added below
+                    station_dict.pop("run_list", None)
+                    station_dict.pop("channels_recorded", None)
                 station_obj.from_dict(station_dict, skip_none=skip_none)
                 for run_dict in runs:
                     run_obj = Run()
 
                     for ch in ["electric", "magnetic", "auxiliary"]:
-                        try:
-                            for ch_dict in self._pop_dictionary(run_dict, ch):
-                                if ch == "electric":
-                                    channel = Electric()
-                                elif ch == "magnetic":
-                                    channel = Magnetic()
-                                elif ch == "auxiliary":
-                                    channel = Auxiliary()
-                                channel.from_dict(ch_dict, skip_none=skip_none)
-                                run_obj.add_channel(channel)
-                        except KeyError:
-                            logger.debug(f"Could not find channel {ch}")
+                        for ch_dict in self._pop_dictionary(run_dict, ch):
+                            if ch == "electric":
+                                channel = Electric()
+                            elif ch == "magnetic":
+                                channel = Magnetic()
+                            elif ch == "auxiliary":
+                                channel = Auxiliary()
+                            channel.from_dict(ch_dict, skip_none=skip_none)
+                            run_obj.add_channel(channel)
                     run_obj.from_dict(run_dict, skip_none=skip_none)
                     station_obj.add_run(run_obj)
                 survey_obj.add_station(station_obj)
@@ -515,7 +530,7 @@ class Experiment(MetadataBase):
 
         """
 
-        elements = in_dict.pop(element)
+        elements = in_dict.pop(element, [])
         if not isinstance(elements, list):
             elements = [elements]
 
@@ -632,6 +647,7 @@ class Experiment(MetadataBase):
                 survey.stations.sort()
                 for station in survey.stations:
                     station.runs.sort()
+                    station.update_run_list()
                     for run in station.runs:
                         run.channels.sort()
 
-- 
2.43.0


From 546b86159cb0d7c03a9cc8d68a62267d4c5e93a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 45/63] fix: a comment keeps its text when its author or time
 is given alongside

---
 mt_metadata/base/metadata.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 472c7cc..aef47f9 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -103,7 +103,14 @@ class DotNotationBaseModel(BaseModel):
                     flat_data[key] = value
 
         # Merge the nested dict into flat dict (nested takes precedence)
-        flat_data.update(nested_data)
+        for key, value in nested_data.items():
+            given = flat_data.get(key)
+            if isinstance(given, dict) and isinstance(value, dict):
+                value = {**given, **value}
+            elif isinstance(given, str) and isinstance(value, dict):
+                # the text of a comment given next to its author or time stamp
+                value.setdefault("value", given)
+            flat_data[key] = value
 
         # Call parent constructor with processed data
         super().__init__(**flat_data)
@@ -137,12 +144,16 @@ class DotNotationBaseModel(BaseModel):
             if part not in current:
                 current[part] = {}
             elif not isinstance(current[part], dict):
-                # Convert to dict if it's not already
-                current[part] = {}
+                # Convert to dict if it's not already, text is a comment's value
+                text = current[part]
+                current[part] = {"value": text} if isinstance(text, str) else {}
             current = current[part]
 
         # Set the final value
-        current[parts[-1]] = value
+        if isinstance(value, str) and isinstance(current.get(parts[-1]), dict):
+            current[parts[-1]]["value"] = value
+        else:
+            current[parts[-1]] = value
 
     def update_attribute(self, attr_name: str, attr_value: Any) -> None:
         """
-- 
2.43.0


From 24d87c88565ecbf15fc6664b342c82f3a4ca79b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:42 +0000
Subject: [PATCH 46/63] fix: time delay filter response includes its gain,
 filter responses accept lists of frequencies (P17)

---
 mt_metadata/timeseries/filters/fir_filter.py        | 4 ++--
 mt_metadata/timeseries/filters/time_delay_filter.py | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/mt_metadata/timeseries/filters/fir_filter.py b/mt_metadata/timeseries/filters/fir_filter.py
index 21378f0..fee437b 100644
--- a/mt_metadata/timeseries/filters/fir_filter.py
+++ b/mt_metadata/timeseries/filters/fir_filter.py
@@ -254,7 +254,7 @@ class FIRFilter(FilterBase):
         :param frequencies:
         :return:
         """
-        angular_frequencies = 2 * np.pi * frequencies
+        angular_frequencies = 2 * np.pi * np.array(frequencies)
         w, h = signal.freqz(
             self.symmetry_corrected_coefficients,
             worN=angular_frequencies,
@@ -275,7 +275,7 @@ class FIRFilter(FilterBase):
 
         """
         # fir_filter.full_coefficients
-        angular_frequencies = 2 * np.pi * frequencies
+        angular_frequencies = 2 * np.pi * np.array(frequencies)
         w, h = signal.freqz(
             self.symmetry_corrected_coefficients,
             worN=angular_frequencies,
diff --git a/mt_metadata/timeseries/filters/time_delay_filter.py b/mt_metadata/timeseries/filters/time_delay_filter.py
index 68b9638..22b047a 100644
--- a/mt_metadata/timeseries/filters/time_delay_filter.py
+++ b/mt_metadata/timeseries/filters/time_delay_filter.py
@@ -115,9 +115,7 @@ class TimeDelayFilter(FilterBase):
             "USING FREQUENCY DOMAIN VERSION OF TIME DELAY FILTER NOT RECOMMENDED FOR MT PROCESSING"
         )
 
-        if isinstance(frequencies, (float, int)):
-            frequencies = np.array([frequencies])
-        w = 2 * np.pi * frequencies
+        w = 2 * np.pi * np.atleast_1d(frequencies)
         exponent = -1.0j * w * self.delay
         spectral_shift_multiplier = np.exp(exponent)
-        return spectral_shift_multiplier
+        return self.gain * spectral_shift_multiplier
-- 
2.43.0


From 79d9be1ed3a32a2b144f264ce30b403c2fae97e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:59 +0000
Subject: [PATCH 47/63] fix: the description of a response stage is the
 filter's comment text (P19)

---
 mt_metadata/timeseries/filters/filter_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/filters/filter_base.py b/mt_metadata/timeseries/filters/filter_base.py
index 143f20f..7091b86 100644
--- a/mt_metadata/timeseries/filters/filter_base.py
+++ b/mt_metadata/timeseries/filters/filter_base.py
@@ -282,7 +282,7 @@ class FilterBase(MetadataBase):
         if self.comments.value is None:
             return filter_descriptions[self.type]
 
-        return self.comments
+        return self.comments.value
 
     @requires(obspy=obspy_import)
     @classmethod
-- 
2.43.0


From a908acab941de8834d4ce7a4688c8d2276ccf603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:17 +0000
Subject: [PATCH 48/63] fix: applied filters are found and kept unique whatever
 the case of the name, and added objects are put in stage order (P20)

---
 mt_metadata/timeseries/channel.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index 0d8553e..3e8d4ca 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -448,6 +448,7 @@ class ChannelBase(MetadataBase):
             if applied_filter.stage is None:
                 applied_filter.stage = len(self.filters) + 1
             self.filters.append(applied_filter)
+            self._sort_filters()
         else:
             if name is None:
                 raise ValueError("name must be provided if applied_filter is None")
@@ -455,7 +456,7 @@ class ChannelBase(MetadataBase):
                 raise TypeError("name must be a string")
 
             # Check if filter with this name already exists
-            if any(f.name == name for f in self.filters):
+            if any(f.name == self._stored_filter_name(name) for f in self.filters):
                 logger.debug(f"Filter '{name}' already exists, skipping duplicate")
                 return
 
@@ -498,6 +499,7 @@ class ChannelBase(MetadataBase):
             Whether to reset the stages of the remaining filters, by default True.
         """
 
+        name = self._stored_filter_name(name)
         new_list = []
         for f in self.filters:
             if f.name == name:
@@ -522,11 +524,20 @@ class ChannelBase(MetadataBase):
             The filter with the given name, or None if not found.
         """
         for f in self.filters:
-            if f.name == name:
+            if f.name == self._stored_filter_name(name):
                 return f
         logger.warning(f"Could not find filter {name} in channel filters")
         return None
 
+    @staticmethod
+    def _stored_filter_name(name: str) -> str:
+        """
+        The form in which :class:`AppliedFilter` stores a filter name.
+        """
+        if isinstance(name, str):
+            return name.replace("/", " per ").lower()
+        return name
+
     def _sort_filters(self) -> None:
         """
         Sort the list of filters applied to the channel by stage number.
-- 
2.43.0


From 60553b3cab7edd9a8580151feb876fc61b3c5daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 49/63] fix: a channel code can be made from an azimuth of any
 numpy number type (P16)

---
 mt_metadata/timeseries/stationxml/fdsn_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/stationxml/fdsn_tools.py b/mt_metadata/timeseries/stationxml/fdsn_tools.py
index 136407a..34f2f86 100644
--- a/mt_metadata/timeseries/stationxml/fdsn_tools.py
+++ b/mt_metadata/timeseries/stationxml/fdsn_tools.py
@@ -242,7 +242,7 @@ def make_channel_code(sample_rate, measurement_type, azimuth, orientation="horiz
 
     period_code = get_period_code(sample_rate)
     sensor_code = get_measurement_code(measurement_type)
-    if isinstance(azimuth, (float, int)):
+    if isinstance(azimuth, (float, int, np.floating, np.integer)):
         orientation_code = get_orientation_code(azimuth, orientation=orientation)
     elif isinstance(azimuth, (str)):
         orientation_code = get_orientation_code(direction=azimuth)
-- 
2.43.0


From f4a9afc4a2f0f31acf83ed6c7d9a0997b0a4b51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:05 +0000
Subject: [PATCH 50/63] fix: StationXML keeps FIR symmetry and decimation in
 text, run authors of mixed-case run ids, run sample rates, and filters that
 change between runs (P15)

---
 mt_metadata/timeseries/filters/fir_filter.py             | 9 +++++++--
 mt_metadata/timeseries/stationxml/utils.py               | 8 +++++++-
 .../timeseries/stationxml/xml_channel_mt_channel.py      | 6 +++---
 .../timeseries/stationxml/xml_inventory_mt_experiment.py | 5 +++++
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/mt_metadata/timeseries/filters/fir_filter.py b/mt_metadata/timeseries/filters/fir_filter.py
index fee437b..76ffc50 100644
--- a/mt_metadata/timeseries/filters/fir_filter.py
+++ b/mt_metadata/timeseries/filters/fir_filter.py
@@ -228,13 +228,18 @@ class FIRFilter(FilterBase):
             self.units_in_object.symbol,
             self.units_out_object.symbol,
             coefficients=self.coefficients.tolist(),
-            symmetry=self.symmetry,
+            symmetry=SymmetryEnum(self.symmetry).value,
             name=self.name,
             description=self.get_filter_description(),
             input_units_description=self.units_in_object.name,
             output_units_description=self.units_out_object.name,
             decimation_input_sample_rate=self.decimation_input_sample_rate,
-            decimation_factor=self.decimation_factor,
+            # StationXML factors are integers
+            decimation_factor=(
+                int(self.decimation_factor)
+                if float(self.decimation_factor).is_integer()
+                else self.decimation_factor
+            ),
         )
 
         return rs
diff --git a/mt_metadata/timeseries/stationxml/utils.py b/mt_metadata/timeseries/stationxml/utils.py
index b00152d..3441bcc 100644
--- a/mt_metadata/timeseries/stationxml/utils.py
+++ b/mt_metadata/timeseries/stationxml/utils.py
@@ -78,7 +78,13 @@ class BaseTranslator:
 
         """
         if comment.subject is not None:
-            key = comment.subject.strip().replace(" ", "_").lower()
+            key = comment.subject.strip().replace(" ", "_")
+            if key.lower().startswith("mt.run:"):
+                # the run id keeps its case, the attribute does not
+                run_id, *attr = key.split(":", 1)[1].split(".", 1)
+                key = ".".join([f"mt.run:{run_id}"] + [a.lower() for a in attr])
+            else:
+                key = key.lower()
         else:
             key = "mt"
 
diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index 51d88f0..2464b59 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -321,12 +321,12 @@ class XMLChannelMTChannel(BaseTranslator):
             s.description = f"{mt_channel.dipole_length} meters"
             if mt_channel.positive.manufacturer:
                 s.manufacturer = mt_channel.positive.manufacturer
-            elif mt_channel.positive.manufacturer:
+            elif mt_channel.negative.manufacturer:
                 s.manufacturer = mt_channel.negative.manufacturer
 
             if mt_channel.positive.model:
                 s.model = mt_channel.positive.model
-            elif mt_channel.positive.model:
+            elif mt_channel.negative.model:
                 s.model = mt_channel.negative.model
 
             s.serial_number = (
@@ -457,7 +457,7 @@ class XMLChannelMTChannel(BaseTranslator):
         clist = mt_comment.value.split("run_ids:")
         for item in clist:
             if ":" in item:
-                k, v = item.split(":")
+                k, v = item.split(":", 1)
                 comments.append(inventory.Comment(v, subject=k))
             elif "[" in item and "]" in item:
                 for run in item.replace("[", "").replace("]", "").split(","):
diff --git a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
index 5145616..afce6fb 100644
--- a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
+++ b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
@@ -90,6 +90,8 @@ class XMLInventoryMTExperiment:
                             run_channel.time_period.start = mt_run.time_period.start
                             run_channel.time_period.end = mt_run.time_period.end
                             mt_run.add_channel(run_channel)
+                            if mt_run.sample_rate == 0:
+                                mt_run.sample_rate = run_channel.sample_rate
                     # if there are runs already try to match by start, end, sample_rate
                     # initialized runs have a sample rate of 0.  This could be an
                     # issue in the future.
@@ -293,4 +295,7 @@ class XMLInventoryMTExperiment:
                 f"{round(xml_channel_01.dip, 2)} != {round(xml_channel_02.dip, 2)}"
             )
             return False
+        if xml_channel_01.response != xml_channel_02.response:
+            self.logger.debug("responses differ")
+            return False
         return True
-- 
2.43.0


From e23ce3dae82e9fbebc2286cbe8e746bab8b9d92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:55 +0000
Subject: [PATCH 51/63] fix: transfer function keeps the other arrays when one
 is assigned by label, honours its channel nomenclature

---
 mt_metadata/transfer_functions/core.py | 30 +++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 098d36f..0fbdfbd 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -53,7 +53,10 @@ class TF:
     def __init__(self, fn: str | Path | None = None, **kwargs):
         # set metadata for the station
         self._survey_metadata = self._initialize_metadata()
-        self.channel_nomenclature = DEFAULT_CHANNEL_NOMENCLATURE
+        # the arrays are labelled with these names
+        self.channel_nomenclature = kwargs.pop(
+            "channel_nomenclature", DEFAULT_CHANNEL_NOMENCLATURE
+        )
         self._inverse_channel_nomenclature = {}
 
         self._rotation_angle = 0
@@ -622,6 +625,7 @@ class TF:
             "res": self.ex_ey_hz,
             "tf": self.hx_hy,
             "tf_error": self.hx_hy,
+            "tf_model_error": self.hx_hy,
             "all": [self.ex, self.ey, self.hz, self.hx, self.hy],
         }
 
@@ -638,6 +642,7 @@ class TF:
             "res": self.ex_ey_hz,
             "tf": self.ex_ey_hz,
             "tf_error": self.ex_ey_hz,
+            "tf_model_error": self.ex_ey_hz,
             "all": [self.ex, self.ey, self.hz, self.hx, self.hy],
         }
 
@@ -771,6 +776,7 @@ class TF:
             "transfer_function_error": (3, 2),
             "tf": (3, 2),
             "tf_error": (3, 2),
+            "tf_model_error": (3, 2),
         }
 
         shape = shape_dict[atype]
@@ -836,6 +842,9 @@ class TF:
             self._transfer_function.transfer_function.data.shape[0] == 1
             and not self.has_tipper()
             and not self.has_impedance()
+            and not np.array_equal(
+                self._transfer_function.period.data, da.period.data
+            )
         ):
             self._transfer_function = self._initialize_transfer_function(da.period)
             return da
@@ -1388,7 +1397,7 @@ class TF:
 
         """
         self._set_data_array(value, "isp")
-        if self.has_residual_covariance():
+        if self.has_residual_covariance() and self.has_inverse_signal_power():
             self._compute_error_from_covariance()
 
     def has_residual_covariance(self) -> bool:
@@ -1454,7 +1463,7 @@ class TF:
 
         """
         self._set_data_array(value, "res")
-        if self.has_inverse_signal_power():
+        if self.has_residual_covariance() and self.has_inverse_signal_power():
             self._compute_error_from_covariance()
 
     def _compute_impedance_error_from_covariance(self) -> None:
@@ -1556,13 +1565,17 @@ class TF:
             If the new periods are not compatible with the existing ones.
         """
         if self.period is not None:
-            if len(self.period) == 1 and (self.period == np.array([1])).all():
+            if (
+                len(self.period) == 1
+                and (self.period == np.array([1])).all()
+                and self._has_no_data()
+            ):
                 self._transfer_function = self._initialize_transfer_function(
                     periods=value
                 )
             elif len(value) != len(self.period):
                 msg = (
-                    f"New period size {value.size} is not the same size as "
+                    f"New period size {len(value)} is not the same size as "
                     f"old ones {self.period.size}, suggest creating a new "
                     "instance of TF."
                 )
@@ -1574,6 +1587,13 @@ class TF:
             self._transfer_function = self._initialize_transfer_function(periods=value)
         return
 
+    def _has_no_data(self) -> bool:
+        """True if none of the arrays has been filled yet"""
+        return not any(
+            np.nan_to_num(array.data).any()
+            for array in self._transfer_function.data_vars.values()
+        )
+
     @property
     def frequency(self) -> np.ndarray | None:
         if self.period is not None:
-- 
2.43.0


From f256005d9a74ba242dd7eafc1070a39095cbf4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:46 +0000
Subject: [PATCH 52/63] fix: transfer functions written to EDI and EMTF XML can
 be read again: zeros, single periods, empty elements, azimuths, enumerations
 (P22)

---
 mt_metadata/transfer_functions/core.py        | 40 ++++++++++++++-----
 mt_metadata/transfer_functions/io/edi/edi.py  | 15 ++++---
 .../io/edi/metadata/define_measurement.py     |  9 +++--
 .../io/emtfxml/metadata/data.py               | 17 +++++---
 .../io/emtfxml/metadata/data_types.py         |  2 +-
 .../io/emtfxml/metadata/helpers.py            | 24 ++++++++++-
 .../emtfxml/metadata/statistical_estimates.py |  2 +-
 7 files changed, 81 insertions(+), 28 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 0fbdfbd..7298517 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -246,9 +246,17 @@ class TF:
             The updated run metadata.
         """
         for ch in [cc for cc in default if cc.startswith("e")]:
-            run_metadata.add_channel(Electric(component=ch))
+            run_metadata.add_channel(
+                Electric(
+                    component=ch, measurement_azimuth=90 if ch.endswith("y") else 0
+                )
+            )
         for ch in [cc for cc in default if cc.startswith("h")]:
-            run_metadata.add_channel(Magnetic(component=ch))
+            run_metadata.add_channel(
+                Magnetic(
+                    component=ch, measurement_azimuth=90 if ch.endswith("y") else 0
+                )
+            )
 
         return run_metadata
 
@@ -1541,6 +1549,8 @@ class TF:
         convenience method to compute errors from covariance
 
         """
+        if not (self.has_residual_covariance() and self.has_inverse_signal_power()):
+            return
         self._compute_impedance_error_from_covariance()
         self._compute_tipper_error_from_covariance()
 
@@ -2260,19 +2270,20 @@ class TF:
         with np.errstate(invalid="ignore"):
             self.impedance_error = np.sqrt(np.where(z_var >= 0, z_var, np.nan))
         self._transfer_function.inverse_signal_power.loc[
-            dict(input=["hx", "hy"], output=["hx", "hy"])
+            dict(input=self.hx_hy, output=self.hx_hy)
         ] = emtfxml_obj.data.z_invsigcov
         self._transfer_function.residual_covariance.loc[
-            dict(input=["ex", "ey"], output=["ex", "ey"])
+            dict(input=self.ex_ey, output=self.ex_ey)
         ] = emtfxml_obj.data.z_residcov
 
         self.tipper = emtfxml_obj.data.t
         self.tipper_error = np.sqrt(emtfxml_obj.data.t_var)
-        self._transfer_function.inverse_signal_power.loc[
-            dict(input=["hx", "hy"], output=["hx", "hy"])
-        ] = emtfxml_obj.data.t_invsigcov
+        if not emtfxml_obj.data.z_invsigcov.any():
+            self._transfer_function.inverse_signal_power.loc[
+                dict(input=self.hx_hy, output=self.hx_hy)
+            ] = emtfxml_obj.data.t_invsigcov
         self._transfer_function.residual_covariance.loc[
-            dict(input=["hz"], output=["hz"])
+            dict(input=[self.hz], output=[self.hz])
         ] = emtfxml_obj.data.t_residcov
 
     def to_jfile(self) -> None:
@@ -2349,12 +2360,21 @@ class TF:
             c = ZChannel()
             c.channel = ch
             c.number = ch_num
+            c.azimuth = 90 if ch in ["ey", "hy"] else 0
             setattr(zmm_obj, c.channel, c)
             if ch in ["ex", "ey"]:
-                rc = Electric(component=ch, channel_number=ch_num)
+                rc = Electric(
+                    component=ch,
+                    channel_number=ch_num,
+                    measurement_azimuth=c.azimuth,
+                )
                 run.add_channel(rc)
             elif ch in ["hx", "hy", "hz"]:
-                rc = Magnetic(component=ch, channel_number=ch_num)
+                rc = Magnetic(
+                    component=ch,
+                    channel_number=ch_num,
+                    measurement_azimuth=c.azimuth,
+                )
                 run.add_channel(rc)
         return run
 
diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index e0f9d26..aee4808 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -251,7 +251,7 @@ class EDI:
 
         """
         if self.frequency is not None:
-            if self.frequency[0] < self.frequency[1]:
+            if len(self.frequency) > 1 and self.frequency[0] < self.frequency[1]:
                 self.logger.debug(
                     "Ordered arrays to be arranged from high to low frequency"
                 )
@@ -264,6 +264,8 @@ class EDI:
                     self.t = self.t[::-1]
                 if self.t_err is not None:
                     self.t_err = self.t_err[::-1]
+                if np.ndim(self.rotation_angle) > 0:
+                    self.rotation_angle = self.rotation_angle[::-1]
 
     def read(self, fn: str | Path | None = None, get_elevation: bool = False) -> None:
         """
@@ -447,8 +449,6 @@ class EDI:
             except KeyError as error:
                 self.logger.debug(error)
         # check for order of frequency, we want high togit  low
-        self._assert_descending_frequency()
-
         try:
             self.rotation_angle = np.array(data_dict["zrot"])
         except KeyError:
@@ -457,6 +457,8 @@ class EDI:
             except KeyError:
                 self.rotation_angle = np.zeros_like(self.frequency)
 
+        self._assert_descending_frequency()
+
     def _read_spectra(
         self,
         data_lines: list[str],
@@ -1310,8 +1312,9 @@ class EDI:
                     electric.update_attribute(attr, 0)
             electric.dipole_length = meas.dipole_length
             electric.channel_id = meas.id
-            electric.measurement_azimuth = meas.azimuth
-            electric.translated_azimuth = meas.azimuth
+            azimuth = meas.azimuth if meas.dipole_length else meas.azm
+            electric.measurement_azimuth = azimuth
+            electric.translated_azimuth = azimuth
             electric.component = meas.chtype
             electric.channel_number = meas.channel_number
             electric.negative.x = meas.x
@@ -1346,6 +1349,8 @@ class EDI:
                     continue
                 elif ".type" in key:
                     continue
+                elif value in NULL_VALUES:
+                    continue
                 if f".{comp}." in key:
                     key = key.split(f".{comp}.", 1)[-1]
                     electric.update_attribute(key, value)
diff --git a/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py b/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
index 920e58d..a296ed2 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
@@ -520,9 +520,12 @@ class DefineMeasurement(MetadataBase):
         if channel.component is None:
             return
 
-        azm = channel.measurement_azimuth
-        if azm != channel.translated_azimuth:
-            azm = channel.translated_azimuth
+        # missing values are filled in below, not in the channel given
+        channel = channel.copy()
+
+        azm = channel.translated_azimuth
+        if azm is None:
+            azm = channel.measurement_azimuth
         if azm is None:
             azm = 0.0
         if "e" in channel.component:
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
index dcfa9d9..7c2d385 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
@@ -352,13 +352,17 @@ class TransferFunction(MetadataBase):
         """
         if self._skip_derived_data:
             logger.debug("Skipping derived quantities.")
+        # a single period is read as a dictionary
+        periods = root_dict["data"]["period"]
+        if not isinstance(periods, list):
+            periods = [periods]
         try:
             n_periods = int(float((root_dict["data"]["count"].strip())))
         except KeyError:
-            n_periods = len(root_dict["data"]["period"])
+            n_periods = len(periods)
 
         self.initialize_arrays(n_periods)
-        for ii, block in enumerate(root_dict["data"]["period"]):
+        for ii, block in enumerate(periods):
             self.period[ii] = float(block["value"])  # type: ignore[assignment]
             self.read_block(block, ii)
 
@@ -385,13 +389,14 @@ class TransferFunction(MetadataBase):
             if self.array_dict[key].size == 0:
                 logger.debug(f"No data for {key}, skipping.")
                 continue
-            arr = np.nan_to_num(self.array_dict[key][index])
+            arr = self.array_dict[key][index].copy()
 
-            # set zeros to empty value of 1E32
+            # set missing values to the empty value of 1E32, a zero is a value
             if arr.dtype == complex:
-                arr[np.where(arr == 0)] = 1e32 + 1e32j
+                arr[np.isnan(arr)] = 1e32 + 1e32j
             else:
-                arr[np.where(arr == 0)] = 1e32
+                arr[np.isnan(arr)] = 1e32
+            arr = np.nan_to_num(arr)
 
             attr_dict = {
                 "type": self._dtype_dict[arr.dtype.name],
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/data_types.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/data_types.py
index 108cc9f..d9177f0 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/data_types.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/data_types.py
@@ -62,7 +62,7 @@ class DataTypes(MetadataBase):
         """
         try:
             self.data_types_list = input_dict["data_types"]["data_type"]
-        except KeyError:
+        except (KeyError, TypeError):
             logger.warning("Could not read Data Types")
 
     def to_xml(self, string: bool = False, required: bool = True) -> str | et.Element:
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
index 3703df0..c2cd4c4 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
@@ -9,6 +9,7 @@ Created on Wed Mar  8 19:53:04 2023
 # Imports
 # =============================================================================
 from collections import OrderedDict
+from enum import Enum
 from xml.etree import cElementTree as et
 
 from loguru import logger
@@ -117,10 +118,29 @@ def _write_single(
 
     element = et.SubElement(parent, _capwords(key), attributes)
     if value not in NULL_VALUES:
-        element.text = str(value)
+        element.text = str(value.value if isinstance(value, Enum) else value)
     return element
 
 
+def _skip_empty(value):
+    """
+    Leave out elements that are empty, they do not set anything.
+
+    Parameters
+    ----------
+    value : dict | Any
+        The content of an XML element
+
+    Returns
+    -------
+    dict | Any
+        The content without keys that have no value
+    """
+    if isinstance(value, dict):
+        return {k: _skip_empty(v) for k, v in value.items() if v is not None}
+    return value
+
+
 def _read_element(cls: type, root_dict: dict, element_name: str) -> None:
     """
     Read an XML element into a class instance.
@@ -136,7 +156,7 @@ def _read_element(cls: type, root_dict: dict, element_name: str) -> None:
     """
 
     try:
-        element_dict = {element_name: root_dict[element_name]}
+        element_dict = {element_name: _skip_empty(root_dict[element_name])}
         cls.from_dict(element_dict)
 
     except KeyError:
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/statistical_estimates.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/statistical_estimates.py
index 24c2299..7ca6c80 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/statistical_estimates.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/statistical_estimates.py
@@ -59,7 +59,7 @@ class StatisticalEstimates(MetadataBase):
 
         try:
             self.estimates_list = input_dict["statistical_estimates"]["estimate"]
-        except KeyError:
+        except (KeyError, TypeError):
             logger.warning("Could not statistical estimates")
 
     def to_xml(self, string: bool = False, required: bool = True) -> str | et.Element:
-- 
2.43.0


From 01303ba219bc2f2a9acc642acb52722369bff352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:35 +0000
Subject: [PATCH 53/63] fix: station and survey metadata survive EMTF XML and
 EDI files (P23)

---
 mt_metadata/transfer_functions/core.py        |  6 ++++--
 mt_metadata/transfer_functions/io/edi/edi.py  |  6 +++---
 .../transfer_functions/io/emtfxml/emtfxml.py  | 21 +++++++++++++------
 .../io/emtfxml/metadata/run.py                | 10 ++++-----
 4 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 7298517..8209045 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -430,8 +430,10 @@ class TF:
             station_metadata = self._validate_station_metadata(station_metadata)
 
             runs = ListDict()
-            if self.run_metadata.id not in ["0", 0, None]:
-                runs.append(self.run_metadata.copy())
+            # there might not be a run yet
+            if len(self.station_metadata.runs) > 0:
+                if self.run_metadata.id not in ["0", 0, None]:
+                    runs.append(self.run_metadata.copy())
             runs.extend(station_metadata.runs)
             if len(runs) == 0:
                 runs[0] = Run(id="0")
diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index aee4808..751bbfa 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1105,7 +1105,9 @@ class EDI:
                         if isinstance(value, list):
                             sm.transfer_function.remote_references.extend(value)
                         elif isinstance(value, str):
-                            sm.transfer_function.remote_references.append(value)
+                            sm.transfer_function.remote_references.extend(
+                                [rr.strip() for rr in value.split(",")]
+                            )
                         elif isinstance(value, (int, float)):
                             sm.transfer_function.remote_references.append(value)
                         else:
@@ -1190,8 +1192,6 @@ class EDI:
             elif "mtft" in key or "emtf" in key or "mtedit" in key:
                 sm.transfer_function.processing_parameters.append(f"{key}={value}")
 
-        if self.Header.filedate is not None:
-            sm.transfer_function.processed_date = self.Header.filedate
         # make any extra information in info list into a comment
         sm.comments = "\n".join(self.Info.write_info()[1:])
 
diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index fa0566c..f403940 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -14,6 +14,7 @@ Created on Sat Sep  4 17:59:53 2021
 # Imports
 # =============================================================================
 import inspect
+import re
 from enum import Enum
 from pathlib import Path
 from xml.etree import cElementTree as et
@@ -322,7 +323,12 @@ class EMTFXML:
 
         with open(file=self.fn, mode="r", encoding="utf-8") as xml_fid:
             xml_string = xml_fid.read()
-            xml_string = xml_string.replace("&", "and")
+            # a bare ampersand is not valid, an entity is
+            xml_string = re.sub(
+                r"&(?!(?:amp|lt|gt|quot|apos|#[0-9]+|#x[0-9a-fA-F]+);)",
+                "and",
+                xml_string,
+            )
             root = et.fromstring(
                 xml_string,
                 et.XMLParser(encoding="utf-8"),
@@ -832,7 +838,8 @@ class EMTFXML:
         survey_obj.country = self.site.country
         survey_obj.geographic_name = self.site.survey
         if self.site.survey not in NULL_VALUES:
-            survey_obj.id = self.site.survey
+            # an id allows fewer characters than a geographic name
+            survey_obj.id = re.sub(r"[^a-zA-Z0-9_\- ]", "_", self.site.survey)
         survey_obj.project = self.site.project
         survey_obj.time_period.start_date = self.site.start
         survey_obj.time_period.end_date = self.site.end
@@ -868,7 +875,7 @@ class EMTFXML:
         """
         self.description = sm.summary
         self.site.project = sm.project
-        if sm.geographic_name is None:
+        if sm.geographic_name in NULL_VALUES:
             self.site.survey = sm.id
         else:
             self.site.survey = sm.geographic_name
@@ -935,6 +942,7 @@ class EMTFXML:
         s.transfer_function.id = self.site.id
         s.transfer_function.sign_convention = self.processing_info.sign_convention
         s.transfer_function.processed_by.author = self.processing_info.processed_by
+        s.transfer_function.processed_date = self.processing_info.process_date
         s.transfer_function.software.author = (
             self.processing_info.processing_software.author
         )
@@ -945,7 +953,7 @@ class EMTFXML:
             self.processing_info.processing_software.last_mod
         )
         # need to use remote reference info if it has it.
-        if self.processing_info.remote_info.site.id is not None:
+        if self.processing_info.remote_info.site.id not in NULL_VALUES:
             s.transfer_function.remote_references = [
                 self.processing_info.remote_info.site.id
             ]
@@ -955,7 +963,7 @@ class EMTFXML:
                 remotes = [
                     rr
                     for rr in self.processing_info.processing_tag.split("_")
-                    if self.site.id not in rr
+                    if self.site.id not in rr and rr not in (self.site.run_list or [])
                 ]
                 s.transfer_function.remote_references = remotes
         s.transfer_function.runs_processed = self.site.run_list
@@ -1033,7 +1041,8 @@ class EMTFXML:
         )
 
         for fn in self.field_notes._run_list:
-            if fn.sampling_rate in [0, None]:
+            # a run is empty if it has neither a name nor a sampling rate
+            if fn.sampling_rate in [0, None] and fn.run in [None, ""]:
                 continue
             r = Run()
             r.id = fn.run
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/run.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/run.py
index 821d31d..3637401 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/run.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/run.py
@@ -170,10 +170,11 @@ class Run(MetadataBase):
         """
 
         self.run = input_dict["run"]
-        self.instrument.from_dict({"instrument": input_dict["instrument"]})
-        self.sampling_rate = input_dict["sampling_rate"]
-        self.start = input_dict["start"]
-        self.end = input_dict["end"]
+        if isinstance(input_dict.get("instrument"), dict):
+            self.instrument.from_dict({"instrument": input_dict["instrument"]})
+        for key in ["sampling_rate", "start", "end", "errors"]:
+            if input_dict.get(key) is not None:
+                setattr(self, key, input_dict[key])
         try:
             if isinstance(input_dict["comments"], list):
                 self.comments.from_dict({"comments": input_dict["comments"][0]})
@@ -181,7 +182,6 @@ class Run(MetadataBase):
                 self.comments.from_dict({"comments": input_dict["comments"]})
         except KeyError:
             logger.debug("run has no comments")
-        self.errors = input_dict["errors"]
 
         try:
             if isinstance(input_dict["magnetometer"], list):
-- 
2.43.0


From 43ce84f88fa2eebdf6c00c77cd88205cc8e4800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:19 +0000
Subject: [PATCH 54/63] fix: import of EDI spectra, resistivity/phase and
 rotated Z-files follows the formats (P24)

---
 mt_metadata/transfer_functions/io/edi/edi.py  | 50 +++++++++++++++----
 .../transfer_functions/io/zfiles/zmm.py       | 48 +++++++++++++++++-
 2 files changed, 86 insertions(+), 12 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 751bbfa..adbd822 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -350,10 +350,43 @@ class EDI:
                 c_list = ["hx", "hy", "ex", "ey", "rhx", "rhy"]
             elif self.Data.nchan == 7:
                 c_list = ["hx", "hy", "hz", "ex", "ey", "rhx", "rhy"]
+            listed = self._get_spectra_channels()
+            if sorted(listed) == sorted(c_list):
+                c_list = listed
             self._read_spectra(lines, comp_list=c_list)
         elif self.Data._data_type_in == "z":
             self._read_mt(lines)
 
+    def _get_spectra_channels(self) -> list[str]:
+        """
+        Get the channels in the order they are listed in the spectra section.
+
+        Returns
+        -------
+        list[str]
+            channel names as used in reading spectra, a channel that is listed
+            a second time is its own remote reference.  An empty list if a
+            listed channel is not one of the measurements.
+
+        """
+        names = {}
+        for key, measurement in self.Measurement.measurements.items():
+            try:
+                names[float(measurement.id)] = key.lower().replace("rr", "r")
+            except (TypeError, ValueError):
+                continue
+
+        channels = []
+        for ch_id in " ".join([str(ch) for ch in self.Data._channel_ids]).split():
+            try:
+                name = names[float(ch_id)]
+            except (KeyError, ValueError):
+                return []
+            if name in channels:
+                name = f"r{name}"
+            channels.append(name)
+        return channels
+
     def _read_mt(self, data_lines: list[str]) -> None:
         """
         Read in impedance and tipper data
@@ -433,16 +466,13 @@ class EDI:
                     self.logger.debug("Reading RHO and PHS to compute impedance")
                     if (self.z[:, ii, jj] == 0).all():
                         phase = data_dict[f"phs{key[-2:]}"]
-                        z_real = np.sqrt(
-                            (5 * self.frequency * data_dict[key])
-                            / (np.tan(np.deg2rad(phase)) ** 2 + 1)
-                        )
-                        z_imag = (np.tan(np.deg2rad(phase))) * z_real
+                        z_abs = np.sqrt(5 * self.frequency * data_dict[key])
+                        z_comp = z_abs * np.exp(1j * np.deg2rad(phase))
+                        # phases of yx are often given in the first quadrant
                         if ii == 1 and jj == 0:
                             if phase.mean() < 90 and phase.mean() > 0:
-                                obj[:, ii, jj] = -1 * (z_real + 1j * z_imag)
-                        else:
-                            obj[:, ii, jj] = z_real + 1j * z_imag
+                                z_comp[z_comp.real > 0] *= -1
+                        obj[:, ii, jj] = z_comp
                         error_obj[:, ii, jj] = np.deg2rad(
                             data_dict[f"phs{key[-2:]}.err"]
                         ) * np.sqrt(data_dict[key] * (self.frequency * 5))
@@ -621,11 +651,11 @@ class EDI:
                 re[0, 0] = s_arr[cc.rhx, cc.ex]
                 re[0, 1] = s_arr[cc.rhx, cc.ey]
                 re[1, 0] = s_arr[cc.rhy, cc.ex]
-                re[1, 0] = s_arr[cc.rhy, cc.ey]
+                re[1, 1] = s_arr[cc.rhy, cc.ey]
 
                 he[0, 0] = s_arr[cc.hx, cc.ex]
                 he[0, 1] = s_arr[cc.hx, cc.ey]
-                he[0, 1] = s_arr[cc.hy, cc.ex]
+                he[1, 0] = s_arr[cc.hy, cc.ex]
                 he[1, 1] = s_arr[cc.hy, cc.ey]
 
                 ee[0, 0] = s_arr[cc.ex, cc.ex]
diff --git a/mt_metadata/transfer_functions/io/zfiles/zmm.py b/mt_metadata/transfer_functions/io/zfiles/zmm.py
index ac5ed6b..c1afd1a 100644
--- a/mt_metadata/transfer_functions/io/zfiles/zmm.py
+++ b/mt_metadata/transfer_functions/io/zfiles/zmm.py
@@ -866,6 +866,7 @@ class ZMM(ZMMHeader):
 
         self.dataset = self._initialize_transfer_function(periods=self.periods)
 
+        sigma_s, sigma_e = self.sigma_s, self.sigma_e
         if rotate_to_measurement_coordinates:
             logger.info(
                 "Rotating transfer functions to measurement coordinates according to "
@@ -890,6 +891,7 @@ class ZMM(ZMMHeader):
             self.dataset.transfer_function_error.loc[
                 dict(input=self._hx_hy, output=[self._hz])
             ] = tipper_err
+            sigma_s, sigma_e = self._rotate_covariances(angle=angle)
         else:
             self.dataset.transfer_function.loc[
                 dict(input=self.input_channels, output=self.output_channels)
@@ -897,10 +899,52 @@ class ZMM(ZMMHeader):
 
         self.dataset.inverse_signal_power.loc[
             dict(input=self.input_channels, output=self.input_channels)
-        ] = self.sigma_s
+        ] = sigma_s
         self.dataset.residual_covariance.loc[
             dict(input=self.output_channels, output=self.output_channels)
-        ] = self.sigma_e
+        ] = sigma_e
+
+    def _rotate_covariances(
+        self, angle: float = 0.0
+    ) -> tuple[np.typing.NDArray[np.complex64], np.typing.NDArray[np.complex64]]:
+        """
+        Rotate the inverse signal power and the residual covariance the same way
+        as the transfer functions.
+
+        Parameters
+        ----------
+        angle : float, optional
+            The angle to rotate to.
+
+        Returns
+        -------
+        tuple[np.ndarray, np.ndarray]
+            inverse signal power and residual covariance
+        """
+        sigma_s, sigma_e = self.sigma_s, self.sigma_e
+
+        if self.hx is not None and self.hy is not None:
+            if self.hx.azimuth != self.hy.azimuth:
+                u = np.eye(2, 2)
+                for ch in [self.hx, self.hy]:
+                    u[ch.index, self.hx.index] = np.cos(np.deg2rad(ch.azimuth - angle))
+                    u[ch.index, self.hy.index] = np.sin(np.deg2rad(ch.azimuth - angle))
+                u = np.linalg.inv(u)
+                sigma_s = np.matmul(u, np.matmul(sigma_s, u.T))
+
+        if self.ex is not None and self.ey is not None:
+            if self.ex.azimuth != self.ey.azimuth:
+                v = np.eye(self.num_channels - 2, self.num_channels - 2)
+                for ch in [self.ex, self.ey]:
+                    v[self.ex.index - 2, ch.index - 2] = np.cos(
+                        np.deg2rad(ch.azimuth - angle)
+                    )
+                    v[self.ey.index - 2, ch.index - 2] = np.sin(
+                        np.deg2rad(ch.azimuth - angle)
+                    )
+                sigma_e = np.matmul(v, np.matmul(sigma_e, v.T))
+
+        return sigma_s, sigma_e
 
     def calculate_impedance(
         self, angle: float = 0.0
-- 
2.43.0


From 0729dcc221702efe4ab37f91fb7abf3d9f996be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:32 +0000
Subject: [PATCH 55/63] fix: merging transfer functions selects, sorts and
 keeps periods whatever their order, and leaves the sources alone (P25)

---
 mt_metadata/transfer_functions/core.py | 44 ++++----------------------
 1 file changed, 6 insertions(+), 38 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 8209045..fa7ea14 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1833,18 +1833,12 @@ class TF:
             """
             item = validate_dict(item)
             period_slice = get_slice_dict(item["period_min"], item["period_max"])
-            item["tf"]._transfer_function = sort_by_period(
-                item["tf"]._transfer_function
-            )
             return get_slice(item["tf"], period_slice)
 
         def get_slice(tf, period_slice: dict[str, slice]) -> xr.Dataset | None:
             """
-            Get slice of a transfer function most of the time we can use .loc
-            but sometimes a key error occurs if the period index is not
-            monotonic (which is should be now after using .sortby('period')),
-            but leaving in place just in case.  If .loc does not work, then
-            we can use .where(conditions) to slice the transfer function.
+            Get slice of a transfer function sorted by period, which needs to be
+            monotonically increasing for .loc to select by value.
 
             Parameters
             ----------
@@ -1858,35 +1852,7 @@ class TF:
             xarray.Dataset
                 The sliced transfer function.
             """
-            try:
-                return tf._transfer_function.loc[period_slice]
-
-            except KeyError:
-                if (
-                    period_slice["period"].start is not None
-                    and period_slice["period"].stop is not None
-                ):
-                    return tf._transfer_function.where(
-                        (tf._transfer_function.period >= period_slice["period"].start)
-                        & (tf._transfer_function.period <= period_slice["period"].stop),
-                        drop=True,
-                    )
-                elif (
-                    period_slice["period"].start is None
-                    and period_slice["period"].stop is not None
-                ):
-                    return tf._transfer_function.where(
-                        (tf._transfer_function.period <= period_slice["period"].stop),
-                        drop=True,
-                    )
-                elif (
-                    period_slice["period"].start is not None
-                    and period_slice["period"].stop is None
-                ):
-                    return tf._transfer_function.where(
-                        (tf._transfer_function.period >= period_slice["period"].start),
-                        drop=True,
-                    )
+            return sort_by_period(tf._transfer_function).loc[period_slice]
 
         period_slice_self = get_slice_dict(period_min, period_max)
         tf_list = [get_slice(self, period_slice_self)]
@@ -1903,7 +1869,9 @@ class TF:
                 logger.error(msg)
                 raise TypeError(msg)
 
-        new_tf = xr.combine_by_coords(tf_list, combine_attrs="override")
+        new_tf = sort_by_period(
+            xr.concat(tf_list, dim="period", combine_attrs="override")
+        )
 
         if inplace:
             self._transfer_function = new_tf
-- 
2.43.0


From 063c295f356973b60a7851288fb101ef8e33fada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:00 +0000
Subject: [PATCH 56/63] fix: a band without indices can be exported and
 imported again (P26)

---
 mt_metadata/common/band.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/band.py b/mt_metadata/common/band.py
index 7e0bd2b..3640c9b 100644
--- a/mt_metadata/common/band.py
+++ b/mt_metadata/common/band.py
@@ -53,7 +53,7 @@ class Band(MetadataBase):
     ]
 
     index_max: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="maximum band index",
@@ -67,7 +67,7 @@ class Band(MetadataBase):
     ]
 
     index_min: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="minimum band index",
-- 
2.43.0


From 4e030ad0bfac23681de91c8c8ae49bd27d34a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:15 +0000
Subject: [PATCH 57/63] fix: processing configuration: sample rates of levels,
 reassignment, data frame of runs (P27)

---
 .../processing/aurora/channel_nomenclature.py |  2 +-
 mt_metadata/processing/aurora/processing.py   | 38 +++++++++++--------
 mt_metadata/processing/aurora/station.py      |  4 +-
 mt_metadata/processing/aurora/stations.py     |  1 +
 4 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/mt_metadata/processing/aurora/channel_nomenclature.py b/mt_metadata/processing/aurora/channel_nomenclature.py
index 20b0851..d5d28a8 100644
--- a/mt_metadata/processing/aurora/channel_nomenclature.py
+++ b/mt_metadata/processing/aurora/channel_nomenclature.py
@@ -193,7 +193,7 @@ class ChannelNomenclature(MetadataBase):
 
         """
         try:
-            return CHANNEL_MAPS[self.keyword.lower()]
+            return dict(CHANNEL_MAPS[self.keyword.lower()])
         except KeyError:
             msg = f"channel mt_system {self.keyword} unknown)"
             raise NotImplementedError(msg)
diff --git a/mt_metadata/processing/aurora/processing.py b/mt_metadata/processing/aurora/processing.py
index 979736a..8e8a913 100644
--- a/mt_metadata/processing/aurora/processing.py
+++ b/mt_metadata/processing/aurora/processing.py
@@ -219,8 +219,8 @@ class Processing(MetadataBase):
     @property
     def band_edges_dict(self) -> dict[int, list[tuple[float, float]]]:
         band_edges_dict = {}
-        for i_dec, decimation in enumerate(self.decimations):
-            band_edges_dict[i_dec] = decimation.band_edges
+        for level, decimation in self.decimations_dict.items():
+            band_edges_dict[level] = decimation.band_edges
         return band_edges_dict
 
     def assign_decimation_level_data_emtf(self, sample_rate: float):
@@ -280,19 +280,27 @@ class Processing(MetadataBase):
         -------
         None
         """
-        num_decimation_levels = len(band_edges_dict.keys())
         if isinstance(num_samples_window, int):
-            num_samples_window = num_decimation_levels * [num_samples_window]
-
+            num_samples_window = dict.fromkeys(band_edges_dict, num_samples_window)
+
+        # the factor of a level is relative to the level above it, so what has been
+        # divided out at a level is the product of the factors down to it.
+        total_factor = 1
+        # levels that are assigned again are replaced
+        self.decimations = [
+            decimation
+            for decimation in self.decimations
+            if decimation.decimation.level not in [int(k) for k in band_edges_dict]
+        ]
         for i_level in sorted(band_edges_dict.keys()):
             band_edges = band_edges_dict[i_level]
             if i_level in [0, "0"]:
                 d = decimation_factors[i_level]  # 1
                 sr = sample_rate
             else:
-                # careful with this hardcoded assumption of decimation by 4
-                d = decimation_factors[i_level]  # 4
-                sr = 1.0 * sample_rate / (d ** int(i_level))
+                d = decimation_factors[i_level]
+                total_factor *= d
+                sr = 1.0 * sample_rate / total_factor
             decimation_obj = DecimationLevel()
             decimation_obj.decimation.level = int(i_level)  # self.decimations_dict[key]
             decimation_obj.decimation.factor = d
@@ -357,16 +365,16 @@ class Processing(MetadataBase):
         2. make sure local station id is defined (correctly from kernel dataset)
         """
 
-        # Make sure a RR method is not being called for a SS config
-        if not self.stations.remote:
-            for decimation in self.decimations:
-                if decimation.estimator.engine == "RME_RR":
-                    logger.info("No RR station specified, switching RME_RR to RME")
-                    decimation.estimator.engine = "RME"
-
         # Make sure that a local station is defined
         if not self.stations.local.id:
             logger.warning(
                 "Local station not specified, should be set from Kernel Dataset"
             )
             self.stations.from_dataset_dataframe(kernel_dataset.df)
+
+        # Make sure a RR method is not being called for a SS config
+        if not self.stations.remote:
+            for decimation in self.decimations:
+                if decimation.estimator.engine == "RME_RR":
+                    logger.info("No RR station specified, switching RME_RR to RME")
+                    decimation.estimator.engine = "RME"
diff --git a/mt_metadata/processing/aurora/station.py b/mt_metadata/processing/aurora/station.py
index beed9bd..4bfd77e 100644
--- a/mt_metadata/processing/aurora/station.py
+++ b/mt_metadata/processing/aurora/station.py
@@ -181,8 +181,8 @@ class Station(MetadataBase):
 
         df = pd.DataFrame(data_list)
         if len(df) > 0:
-            df["start"] = pd.to_datetime(df["start"])
-            df["end"] = pd.to_datetime(df["end"])
+            df["start"] = pd.to_datetime(df["start"], format="ISO8601")
+            df["end"] = pd.to_datetime(df["end"], format="ISO8601")
 
         return df
 
diff --git a/mt_metadata/processing/aurora/stations.py b/mt_metadata/processing/aurora/stations.py
index 5600ecd..34acfd0 100644
--- a/mt_metadata/processing/aurora/stations.py
+++ b/mt_metadata/processing/aurora/stations.py
@@ -161,6 +161,7 @@ class Stations(MetadataBase):
 
         self.local.from_dataset_dataframe(df[df.station == station])
 
+        self.remote = []
         for rr_station in rr_stations:
             rr = Station()  # type: ignore
             rr.from_dataset_dataframe(df[df.station == rr_station])
-- 
2.43.0


From a0278d6a5c94d2bbae9a563014791116433ea917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:28 +0000
Subject: [PATCH 58/63] fix: window taper follows its parameters, archived
 Fourier coefficients of a level are recognised, spans use end times (P28)

---
 mt_metadata/processing/aurora/decimation_level.py   | 13 +++++++++----
 .../processing/fourier_coefficients/decimation.py   |  4 ++--
 mt_metadata/processing/fourier_coefficients/fc.py   |  5 +++--
 mt_metadata/processing/window.py                    | 11 ++++++++++-
 4 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/mt_metadata/processing/aurora/decimation_level.py b/mt_metadata/processing/aurora/decimation_level.py
index 6cca508..9d7e3c3 100644
--- a/mt_metadata/processing/aurora/decimation_level.py
+++ b/mt_metadata/processing/aurora/decimation_level.py
@@ -519,17 +519,21 @@ class DecimationLevel(MetadataBase):
             logger.info(msg)
             return False
 
-        if fc_decimation.stft.harmonic_indices is None:
+        archived_indices = fc_decimation.stft.harmonic_indices
+        if isinstance(archived_indices, int):
+            archived_indices = [archived_indices]
+
+        if archived_indices is None:
             # harmonic_indices not set, skip this check
             pass
-        elif -1 in fc_decimation.stft.harmonic_indices:
+        elif -1 in archived_indices:
             # if harmonic_indices is -1, it means the archive kept all so we can skip this check.
             pass
         else:
             msg = "WIP: harmonic indices in AuroraDecimationlevel are derived from processing bands -- Not robustly tested to compare with FCDecimation"
             logger.debug(msg)
             harmonic_indices_requested = self.harmonic_indices
-            fcdec_group_set = set(fc_decimation.stft.harmonic_indices)
+            fcdec_group_set = set(archived_indices)
             processing_set = set(harmonic_indices_requested)
             if processing_set.issubset(fcdec_group_set):
                 pass
@@ -596,7 +600,8 @@ class DecimationLevel(MetadataBase):
         fc_dec_obj.stft.prewhitening_type = self.stft.prewhitening_type
         fc_dec_obj.stft.recoloring = self.stft.recoloring
         fc_dec_obj.time_series_decimation.sample_rate = self.decimation.sample_rate
-        fc_dec_obj.stft.window = self.stft.window
+        fc_dec_obj.stft.min_num_stft_windows = self.stft.min_num_stft_windows
+        fc_dec_obj.stft.window = self.stft.window.copy()
 
         return fc_dec_obj
 
diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index 829c6ab..e4572c9 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -378,7 +378,7 @@ class Decimation(MetadataBase):
         for ch in self.channels:
             if ch.time_period.start != "1980-01-01T00:00:00+00:00":
                 start.append(ch.time_period.start)
-            if ch.time_period.start != "1980-01-01T00:00:00+00:00":
+            if ch.time_period.end != "1980-01-01T00:00:00+00:00":
                 end.append(ch.time_period.end)
         if start:
             if self.time_period.start == "1980-01-01T00:00:00+00:00":
@@ -479,7 +479,7 @@ def fc_decimations_creator(
 
         if time_period:
             if isinstance(time_period, TimePeriod):
-                fc_dec.time_period = time_period
+                fc_dec.time_period = time_period.copy()
             else:
                 msg = (
                     f"Not sure how to assign time_period with type {type(time_period)}"
diff --git a/mt_metadata/processing/fourier_coefficients/fc.py b/mt_metadata/processing/fourier_coefficients/fc.py
index 5122c95..df303bc 100644
--- a/mt_metadata/processing/fourier_coefficients/fc.py
+++ b/mt_metadata/processing/fourier_coefficients/fc.py
@@ -228,7 +228,7 @@ class FC(MetadataBase):
 
         """
 
-        if level in self.decimation_levels:
+        if str(level) in self.decimation_levels:
             return True
         return False
 
@@ -288,6 +288,7 @@ class FC(MetadataBase):
 
         """
 
+        decimation_level_id = str(decimation_level_id)
         if self.has_decimation_level(decimation_level_id):
             self.levels.remove(decimation_level_id)
             # Also remove from decimation_levels list
@@ -311,7 +312,7 @@ class FC(MetadataBase):
         for dl in self.levels:
             if dl.time_period.start != "1980-01-01T00:00:00+00:00":
                 start.append(dl.time_period.start)
-            if dl.time_period.start != "1980-01-01T00:00:00+00:00":
+            if dl.time_period.end != "1980-01-01T00:00:00+00:00":
                 end.append(dl.time_period.end)
         if start:
             if self.time_period.start == "1980-01-01T00:00:00+00:00":
diff --git a/mt_metadata/processing/window.py b/mt_metadata/processing/window.py
index 234e1ae..9885a5c 100644
--- a/mt_metadata/processing/window.py
+++ b/mt_metadata/processing/window.py
@@ -48,6 +48,7 @@ class ClockZeroTypeEnum(StrEnumerationBase):
 
 class Window(MetadataBase):
     _taper: np.ndarray | None = PrivateAttr(None)
+    _taper_parameters: tuple | None = PrivateAttr(None)
     num_samples: Annotated[
         int,
         Field(
@@ -177,7 +178,14 @@ class Window(MetadataBase):
         -------
 
         """
-        if self._taper is None:
+        # the coefficients follow the parameters, which can change any time
+        parameters = (
+            self.type,
+            self.num_samples,
+            self.normalized,
+            tuple((k, str(v)) for k, v in self.additional_args.items()),
+        )
+        if self._taper is None or self._taper_parameters != parameters:
             # Repackaging the args so that scipy.signal.get_window() accepts all cases
             window_args = [v for k, v in self.additional_args.items()]
             window_args.insert(0, self.type)
@@ -189,6 +197,7 @@ class Window(MetadataBase):
                 taper /= np.sum(taper)
 
             self._taper = taper
+            self._taper_parameters = parameters
 
         return self._taper
 
-- 
2.43.0


From b808ae83f5e2358bd75ba6705ffdd0142e04a592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:50 +0000
Subject: [PATCH 59/63] fix: window arguments survive export and import (P28)

---
 mt_metadata/base/metadata.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index aef47f9..7e32542 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -194,6 +194,11 @@ class DotNotationBaseModel(BaseModel):
                 )
             current = getattr(current, part)
 
+        if isinstance(current, dict):
+            # an item of a dictionary, like the arguments of a window
+            current[parts[-1]] = attr_value
+            return
+
         # Set the final attribute
         setattr(current, parts[-1], attr_value)
         setattr(current, parts[-1], attr_value)
-- 
2.43.0


From 48f3017add076f958f2b67e2a7716f1222db2cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:43 +0000
Subject: [PATCH 60/63] fix: feature weight specifications survive export and
 import, inactive kernels are skipped, weights combine whatever their shape
 (P29)

---
 .../activation_monotonic_weight_kernel.py     |  7 +-
 .../features/weights/channel_weight_spec.py   |  3 +
 .../features/weights/feature_weight_spec.py   | 66 ++++++++++++++++++-
 3 files changed, 72 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/features/weights/activation_monotonic_weight_kernel.py b/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
index f723a09..8122811 100644
--- a/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
+++ b/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
@@ -81,6 +81,11 @@ class ActivationMonotonicWeightKernel(MonotonicWeightKernel):
         direction = getattr(self, "threshold", "low cut")
         # Both bounds finite
         if np.isfinite(lb) and np.isfinite(ub):
+            if ub == lb:
+                # no transition, a step
+                if direction == "high cut":
+                    return np.where(values <= ub, 1.0, 0.0)
+                return np.where(values >= lb, 1.0, 0.0)
             x = (values - lb) / (ub - lb)
             if direction == "high cut":
                 x = 1 - x
@@ -88,7 +93,7 @@ class ActivationMonotonicWeightKernel(MonotonicWeightKernel):
         # Infinite bounds: fallback (could be extended for custom behavior)
         msg = "ActivationMonotonicWeightKernel only supports finite transition bounds. "
         logger.warning(msg + "Returning 0.5 for all values.")
-        return np.full_like(values, 0.5)
+        return np.full_like(values, 0.5, dtype=float)
 
     def evaluate(self, values: NDArray) -> NDArray:
         """
diff --git a/mt_metadata/features/weights/channel_weight_spec.py b/mt_metadata/features/weights/channel_weight_spec.py
index 7717f50..846d13a 100644
--- a/mt_metadata/features/weights/channel_weight_spec.py
+++ b/mt_metadata/features/weights/channel_weight_spec.py
@@ -194,6 +194,9 @@ class ChannelWeightSpec(MetadataBase):
         if not weights:
             return 1.0
 
+        # a specification without kernels gives one weight for all values
+        weights = np.broadcast_arrays(*weights)
+
         combo = self.combination_style
         if combo == "multiplication":
             return np.prod(weights, axis=0)
diff --git a/mt_metadata/features/weights/feature_weight_spec.py b/mt_metadata/features/weights/feature_weight_spec.py
index 01a3e88..91f05d1 100644
--- a/mt_metadata/features/weights/feature_weight_spec.py
+++ b/mt_metadata/features/weights/feature_weight_spec.py
@@ -1,8 +1,9 @@
 # =====================================================
 # Imports
 # =====================================================
+from collections import OrderedDict
 from enum import Enum
-from typing import Annotated
+from typing import Annotated, Literal
 
 import numpy as np
 from loguru import logger
@@ -20,6 +21,7 @@ from mt_metadata.features.weights.monotonic_weight_kernel import MonotonicWeight
 from mt_metadata.features.weights.taper_monotonic_weight_kernel import (
     TaperMonotonicWeightKernel,
 )
+from mt_metadata.utils.validators import validate_name
 
 ## for new features import and add to this dictionary.
 feature_classes = {
@@ -44,7 +46,7 @@ class FeatureNameEnum(str, Enum):
 
 class FeatureWeightSpec(MetadataBase):
     feature_name: Annotated[
-        FeatureNameEnum,
+        FeatureNameEnum | Literal[""],
         Field(
             default="",
             description="The name of the feature to evaluate (e.g., coherence, impedance_ratio).",
@@ -175,6 +177,13 @@ class FeatureWeightSpec(MetadataBase):
         for item in value:
             if isinstance(item, dict) and "weight_kernel" in item:
                 item = item["weight_kernel"]
+            if isinstance(item, dict) and len(item) == 1:
+                # exported kernels are under the name of their class
+                key = list(item.keys())[0]
+                for kernel_class in weight_classes.values():
+                    if key == validate_name(kernel_class.__name__):
+                        item = kernel_class(**item[key])
+                        break
             if isinstance(item, dict):
                 # Use the 'style' field to determine which kernel class to use
                 style = str(item.get("style", ""))
@@ -212,6 +221,53 @@ class FeatureWeightSpec(MetadataBase):
                 raise TypeError(f"Invalid type for weight_kernel: {type(item)}")
         return kernels
 
+    def to_dict(
+        self, nested: bool = False, single: bool = False, required: bool = True
+    ) -> dict:
+        """
+        Dictionary of the specification with all attributes of its feature.
+        """
+        meta_dict = super().to_dict(nested=nested, single=True, required=required)
+        meta_dict = OrderedDict(
+            (k, v)
+            for k, v in meta_dict.items()
+            if k != "feature" and not k.startswith("feature.")
+        )
+        feature = self.feature.to_dict(nested=nested, single=True, required=required)
+        if nested:
+            meta_dict["feature"] = feature
+        else:
+            for key, value in feature.items():
+                meta_dict[f"feature.{key}"] = value
+        meta_dict = OrderedDict(sorted(meta_dict.items()))
+        if single:
+            return meta_dict
+        return {validate_name(self.__class__.__name__): meta_dict}
+
+    def from_dict(self, meta_dict: dict, skip_none: bool = False) -> None:
+        """
+        Fill the specification, the class of the feature follows its name.
+        """
+        if isinstance(meta_dict, dict) and len(meta_dict) == 1:
+            key, value = list(meta_dict.items())[0]
+            if key == validate_name(self.__class__.__name__):
+                meta_dict = value
+        feature, rest = {}, {}
+        for key, value in meta_dict.items():
+            if key.startswith("feature."):
+                self._set_nested_attribute(feature, key.split(".", 1)[1], value)
+            elif key == "feature":
+                if isinstance(value, dict):
+                    feature.update(value)
+                else:
+                    self.feature = value
+            else:
+                rest[key] = value
+        if feature:
+            feature.setdefault("name", self.feature.name)
+            self.feature = feature
+        super().from_dict({validate_name(self.__class__.__name__): rest}, skip_none)
+
     def evaluate(self, feature_values):
         """
         Evaluate this feature's weighting based on the list of kernels.
@@ -227,5 +283,9 @@ class FeatureWeightSpec(MetadataBase):
             The combined weight from all kernels (e.g., multiplied together).
         """
 
-        weights = [kernel.evaluate(feature_values) for kernel in self.weight_kernels]
+        weights = [
+            kernel.evaluate(feature_values)
+            for kernel in self.weight_kernels
+            if kernel.active is not False
+        ]
         return np.prod(weights, axis=0) if weights else 1.0
-- 
2.43.0


From 1331c47616a401ae822ed19a0f74dda4b6299dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:48 +0000
Subject: [PATCH 61/63] fix: coherence uses the arguments of its window, sub
 windows keep their own (P30)

---
 mt_metadata/features/coherence.py                 | 6 +++++-
 mt_metadata/features/striding_window_coherence.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/features/coherence.py b/mt_metadata/features/coherence.py
index 88d9de7..db61e2c 100644
--- a/mt_metadata/features/coherence.py
+++ b/mt_metadata/features/coherence.py
@@ -280,10 +280,14 @@ class Coherence(Feature):
         -------
 
         """
+        window = self.window.type
+        if self.window.additional_args:
+            window = (window, *self.window.additional_args.values())
+
         frequencies, coh_squared = ssig.coherence(
             ts_1,
             ts_2,
-            window=self.window.type,
+            window=window,
             nperseg=self.window.num_samples,
             noverlap=self.window.overlap,
             detrend=self.detrend,
diff --git a/mt_metadata/features/striding_window_coherence.py b/mt_metadata/features/striding_window_coherence.py
index cc7998c..9229961 100644
--- a/mt_metadata/features/striding_window_coherence.py
+++ b/mt_metadata/features/striding_window_coherence.py
@@ -103,7 +103,7 @@ class StridingWindowCoherence(Coherence):
         self.subwindow.type = self.window.type
         self.subwindow.num_samples = int(self.window.num_samples * fraction)
         self.subwindow.overlap = int(self.subwindow.num_samples // 2)
-        self.subwindow.additional_args = self.window.additional_args
+        self.subwindow.additional_args = dict(self.window.additional_args)
         # No need to update stride; main window stride is set by self.window.num_samples_advance
 
     def compute(
-- 
2.43.0


From 0feab4d3145b46fcc7200f48fbd2870d384eb241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:49 +0000
Subject: [PATCH 62/63] fix: a channel moved in elevation between runs is a new
 channel epoch in StationXML

---
 .../timeseries/stationxml/xml_inventory_mt_experiment.py     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
index afce6fb..e7e552f 100644
--- a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
+++ b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
@@ -285,6 +285,11 @@ class XMLInventoryMTExperiment:
                 f"{round(xml_channel_01.longitude, 3)} != {round(xml_channel_02.longitude, 3)}"
             )
             return False
+        if round(xml_channel_01.elevation, 1) != round(xml_channel_02.elevation, 1):
+            self.logger.debug(
+                f"{round(xml_channel_01.elevation, 1)} != {round(xml_channel_02.elevation, 1)}"
+            )
+            return False
         if round(xml_channel_01.azimuth, 2) != round(xml_channel_02.azimuth, 2):
             self.logger.debug(
                 f"{round(xml_channel_01.azimuth, 2)} != {round(xml_channel_02.azimuth, 2)}"
-- 
2.43.0


From 905ea15d10f97a79df665e8f5d67cff28356c626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:53 +0000
Subject: [PATCH 63/63] fix: leave channel_weight_spec.py and
 feature_weight_spec.py as they were, their repairs are recorded as findings
 (P29)

---
 .../features/weights/channel_weight_spec.py   |  3 -
 .../features/weights/feature_weight_spec.py   | 66 +------------------
 2 files changed, 3 insertions(+), 66 deletions(-)

diff --git a/mt_metadata/features/weights/channel_weight_spec.py b/mt_metadata/features/weights/channel_weight_spec.py
index 846d13a..7717f50 100644
--- a/mt_metadata/features/weights/channel_weight_spec.py
+++ b/mt_metadata/features/weights/channel_weight_spec.py
@@ -194,9 +194,6 @@ class ChannelWeightSpec(MetadataBase):
         if not weights:
             return 1.0
 
-        # a specification without kernels gives one weight for all values
-        weights = np.broadcast_arrays(*weights)
-
         combo = self.combination_style
         if combo == "multiplication":
             return np.prod(weights, axis=0)
diff --git a/mt_metadata/features/weights/feature_weight_spec.py b/mt_metadata/features/weights/feature_weight_spec.py
index 91f05d1..01a3e88 100644
--- a/mt_metadata/features/weights/feature_weight_spec.py
+++ b/mt_metadata/features/weights/feature_weight_spec.py
@@ -1,9 +1,8 @@
 # =====================================================
 # Imports
 # =====================================================
-from collections import OrderedDict
 from enum import Enum
-from typing import Annotated, Literal
+from typing import Annotated
 
 import numpy as np
 from loguru import logger
@@ -21,7 +20,6 @@ from mt_metadata.features.weights.monotonic_weight_kernel import MonotonicWeight
 from mt_metadata.features.weights.taper_monotonic_weight_kernel import (
     TaperMonotonicWeightKernel,
 )
-from mt_metadata.utils.validators import validate_name
 
 ## for new features import and add to this dictionary.
 feature_classes = {
@@ -46,7 +44,7 @@ class FeatureNameEnum(str, Enum):
 
 class FeatureWeightSpec(MetadataBase):
     feature_name: Annotated[
-        FeatureNameEnum | Literal[""],
+        FeatureNameEnum,
         Field(
             default="",
             description="The name of the feature to evaluate (e.g., coherence, impedance_ratio).",
@@ -177,13 +175,6 @@ class FeatureWeightSpec(MetadataBase):
         for item in value:
             if isinstance(item, dict) and "weight_kernel" in item:
                 item = item["weight_kernel"]
-            if isinstance(item, dict) and len(item) == 1:
-                # exported kernels are under the name of their class
-                key = list(item.keys())[0]
-                for kernel_class in weight_classes.values():
-                    if key == validate_name(kernel_class.__name__):
-                        item = kernel_class(**item[key])
-                        break
             if isinstance(item, dict):
                 # Use the 'style' field to determine which kernel class to use
                 style = str(item.get("style", ""))
@@ -221,53 +212,6 @@ class FeatureWeightSpec(MetadataBase):
                 raise TypeError(f"Invalid type for weight_kernel: {type(item)}")
         return kernels
 
-    def to_dict(
-        self, nested: bool = False, single: bool = False, required: bool = True
-    ) -> dict:
-        """
-        Dictionary of the specification with all attributes of its feature.
-        """
-        meta_dict = super().to_dict(nested=nested, single=True, required=required)
-        meta_dict = OrderedDict(
-            (k, v)
-            for k, v in meta_dict.items()
-            if k != "feature" and not k.startswith("feature.")
-        )
-        feature = self.feature.to_dict(nested=nested, single=True, required=required)
-        if nested:
-            meta_dict["feature"] = feature
-        else:
-            for key, value in feature.items():
-                meta_dict[f"feature.{key}"] = value
-        meta_dict = OrderedDict(sorted(meta_dict.items()))
-        if single:
-            return meta_dict
-        return {validate_name(self.__class__.__name__): meta_dict}
-
-    def from_dict(self, meta_dict: dict, skip_none: bool = False) -> None:
-        """
-        Fill the specification, the class of the feature follows its name.
-        """
-        if isinstance(meta_dict, dict) and len(meta_dict) == 1:
-            key, value = list(meta_dict.items())[0]
-            if key == validate_name(self.__class__.__name__):
-                meta_dict = value
-        feature, rest = {}, {}
-        for key, value in meta_dict.items():
-            if key.startswith("feature."):
-                self._set_nested_attribute(feature, key.split(".", 1)[1], value)
-            elif key == "feature":
-                if isinstance(value, dict):
-                    feature.update(value)
-                else:
-                    self.feature = value
-            else:
-                rest[key] = value
-        if feature:
-            feature.setdefault("name", self.feature.name)
-            self.feature = feature
-        super().from_dict({validate_name(self.__class__.__name__): rest}, skip_none)
-
     def evaluate(self, feature_values):
         """
         Evaluate this feature's weighting based on the list of kernels.
@@ -283,9 +227,5 @@ class FeatureWeightSpec(MetadataBase):
             The combined weight from all kernels (e.g., multiplied together).
         """
 
-        weights = [
-            kernel.evaluate(feature_values)
-            for kernel in self.weight_kernels
-            if kernel.active is not False
-        ]
+        weights = [kernel.evaluate(feature_values) for kernel in self.weight_kernels]
         return np.prod(weights, axis=0) if weights else 1.0
-- 
2.43.0

